------------------------------ MODULE SplitRun ------------------------------
(***************************************************************************)
(* Splitters as objects that are iterated over: two iterations of one      *)
(* splitter, with the same fixed seed, are advanced in any order, and each *)
(* computes its folds step by step.  The sets that were handed out must be *)
(* those that Splits demands (C18, C19), whatever the interleaving.        *)
(*                                                                         *)
(* A draw is the permutation that the generator of random numbers yields   *)
(* for a group; with a fixed seed the i-th draw of a generator is always   *)
(* the same, draws[i], but any sequence of draws is possible.              *)
(***************************************************************************)
EXTENDS Splits, TLC, Json, Functions, FiniteSetsExt, SequencesExt

CONSTANTS MaxN,      \* samples
          MaxG,      \* groups
          MaxK,      \* folds
          Kinds,     \* kinds of splitters
          Shuffle,   \* are the permutations drawn
          Flaws,     \* mistakes in the algorithm, {} for the specified one
          Sizes0,    \* requested sizes of training and test sets
          Emit       \* print behaviours

VARIABLES s,         \* the splitter and the data: kind, n, lab, K, tr, te
          draws,     \* draws[i] is a function from groups to permutations
          used,      \* number of rounds of draws taken from a shared generator
          it,        \* it[j]: the state of iteration j
          out,       \* out[j]: folds that were handed out by iteration j
          sched      \* the order of steps
vars == <<s, draws, used, it, out, sched>>

\* labels are numbered in the order of their first occurrence
Labels(n) == {lab \in [1..n -> 0..(MaxG - 1)] :
                \A i \in 1..n : lab[i] = 0 \/ \E j \in 1..(i - 1) : lab[j] = lab[i] - 1}
Perms(S) == {q \in [1..Cardinality(S) -> S] : Cardinality(Ran(q)) = Cardinality(S)}
Orders(lab) == LET G == Groups(lab) IN
    IF ~Shuffle THEN {[g \in G |-> SetToSortSeq(Members(lab, g), <)]}
    ELSE {f \in [G -> UNION {Perms(Members(lab, g)) : g \in G}] : \A g \in G : Ran(f[g]) = Members(lab, g)}

\* the fold of the p-th of m members
FoldOf(p, m, K) == LET q == m \div K  r == m % K IN
    IF "ceil" \in Flaws THEN p \div Ceil(m, K)
    ELSE IF "remainder" \in Flaws THEN (IF p \div q < K THEN p \div q ELSE K - 1)
    ELSE IF p < r * (q + 1) THEN p \div (q + 1) ELSE r + (p - r * (q + 1)) \div q

KFoldTest(lab, K, o, f) == UNION {{o[g][p] : p \in {x \in DOMAIN o[g] : FoldOf(x - 1, Len(o[g]), K) = f}} : g \in DOMAIN o}
InterTest(n, K, f) == IF "blocks" \in Flaws THEN {i \in Samples(n) : FoldOf(i, n, K) = f}
                      ELSE {i \in Samples(n) : i % K = f}
Asc(S) == SetToSortSeq(S, <)

\* sizes of training and test sets in a group of m samples
Sized(m, tr, te) ==
    LET P == Pairs(m, tr, te) IN
    IF "floor" \in Flaws /\ te.kind = "frac" /\ tr.kind = "none" THEN <<m - (te.a * m) \div te.b, (te.a * m) \div te.b>>
    ELSE IF "rest" \in Flaws /\ tr.kind # "none" /\ te.kind # "none"
         THEN LET p == CHOOSE x \in P : TRUE IN <<m - p[2], p[2]>>
    ELSE CHOOSE x \in P : TRUE
ShufTrain(o, tr, te, g) == LET z == Sized(Len(o[g]), tr, te) IN {o[g][i] : i \in 1..z[1]}
ShufTest(o, tr, te, g) == LET z == Sized(Len(o[g]), tr, te) IN {o[g][i] : i \in (z[1] + 1)..(z[1] + z[2])}

Legal == /\ s.kind \in {"kfold"} => LegalK(s.n, s.lab, s.K)
         /\ s.kind = "interlaced" => s.K >= 2 /\ s.K <= s.n
         /\ s.kind = "shuffle" => ~MayRefuse(s.lab, s.tr, s.te) /\ s.K >= 1

None == [kind |-> "none", a |-> 0, b |-> 1]
Init == /\ \E kd \in Kinds, n \in 1..MaxN : \E lab \in (IF kd = "interlaced" THEN {[i \in 1..n |-> 0]} ELSE Labels(n)) :
           \E K \in 1..MaxK : \E tr \in (IF kd = "shuffle" THEN Sizes0 ELSE {None}) : \E te \in (IF kd = "shuffle" THEN Sizes0 ELSE {None}) :
              s = [kind |-> kd, n |-> n, lab |-> lab, K |-> K, tr |-> tr, te |-> te]
        /\ Legal \/ Emit
        /\ \/ s.kind = "interlaced" /\ draws = << >>
           \/ s.kind = "kfold" /\ \E a, b \in Orders(s.lab) : draws = <<a, b>> /\ (~Shuffle => a = b)
           \/ s.kind = "shuffle" /\ \E a, b, e \in Orders(s.lab) : draws = <<a, b, e>>
        /\ used = 0
        /\ it = [j \in 1..2 |-> [at |-> 0, fold |-> 0]]      \* at: the first draw of the iteration
        /\ out = [j \in 1..2 |-> << >>]
        /\ sched = << >>

Draw(i) == draws[1 + (i % Len(draws))]
\* the folds of an iteration are draws of its own generator; the flaw uses one for all
KFoldStep(j) ==
    LET at == IF it[j].fold > 0 THEN it[j].at ELSE IF "sharedrng" \in Flaws THEN used ELSE 0
        te == KFoldTest(s.lab, s.K, Draw(at), it[j].fold)
    IN /\ used' = IF it[j].fold = 0 THEN used + 1 ELSE used
       /\ it' = [it EXCEPT ![j] = [at |-> at, fold |-> @.fold + 1]]
       /\ out' = [out EXCEPT ![j] = Append(@, [tr |-> Asc(Samples(s.n) \ te), te |-> Asc(te)])]
InterStep(j) ==
    LET te == InterTest(s.n, s.K, it[j].fold)
    IN /\ it' = [it EXCEPT ![j] = [@ EXCEPT !.fold = @ + 1]]
       /\ out' = [out EXCEPT ![j] = Append(@, [tr |-> Asc(Samples(s.n) \ te), te |-> Asc(te)])]
       /\ UNCHANGED used
ShufStep(j) ==
    LET o == Draw(IF "sharedrng" \in Flaws THEN used ELSE it[j].fold)
        G == Groups(s.lab)
        tr == UNION {ShufTrain(o, s.tr, s.te, g) : g \in G}
        te == UNION {ShufTest(o, s.tr, s.te, g) : g \in G}
        fold == [tr |-> Asc(IF "alltrain" \in Flaws THEN Samples(s.n) \ te ELSE tr), te |-> Asc(te)]
        old == out[j]
    IN /\ used' = used + 1
       /\ it' = [it EXCEPT ![j] = [@ EXCEPT !.fold = @ + 1]]
       \* the flaw hands out the working arrays, which the next step overwrites
       /\ out' = [out EXCEPT ![j] = IF "workarray" \in Flaws THEN [i \in 1..(Len(old) + 1) |-> fold] ELSE Append(old, fold)]

Step(j) == /\ Legal /\ it[j].fold < s.K
           /\ CASE s.kind = "kfold" -> KFoldStep(j)
                [] s.kind = "interlaced" -> InterStep(j)
                [] OTHER -> ShufStep(j)
           /\ sched' = Append(sched, j)
           /\ UNCHANGED <<s, draws>>
Over == ~Legal \/ \A j \in 1..2 : it[j].fold = s.K
Show == /\ Over
        /\ Emit => PrintT("HIST|" \o ToJson([kind |-> s.kind, n |-> s.n, lab |-> s.lab, K |-> s.K,
                                             tr |-> s.tr, te |-> s.te, sched |-> sched]))
        /\ UNCHANGED vars
Next == Show \/ \E j \in 1..2 : Step(j)
Spec == Init /\ [][Next]_vars
NoSched == <<s, draws, used, it, out>>

\* iterations are alike, the first one may start
FirstStarts == sched = << >> \/ sched[1] = 1
Complete(j) == it[j].fold = s.K
Partitioned == \A j \in 1..2 : Complete(j) /\ s.kind # "shuffle" => Partition(s.n, s.K, out[j])
Even == \A j \in 1..2 : Complete(j) /\ s.kind = "kfold" => Balanced(s.lab, out[j])
Runs == \A j \in 1..2 : Complete(j) /\ s.kind = "kfold" /\ ~Shuffle => Contiguous(s.lab, out[j])
Woven == \A j \in 1..2 : Complete(j) /\ s.kind = "interlaced" => Interlaced(s.K, out[j])
Sizable == \A j \in 1..2 : s.kind = "shuffle" => \A f \in DOMAIN out[j] :
              SplitOk(s.n, out[j][f]) /\ Sizes(s.lab, s.tr, s.te, out[j][f])
InOrder == \A j \in 1..2 : s.kind = "shuffle" /\ ~Shuffle => \A f \in DOMAIN out[j] : TrainFirst(s.lab, out[j][f])
Repeatable == \A f \in DOMAIN out[1] \cap DOMAIN out[2] : out[1][f] = out[2][f]
\* what was handed out never changes
Kept == [][\A j \in 1..2 : IsPrefix(out[j], out'[j])]_vars

\* sizes for the configurations
Abs(a) == [kind |-> "abs", a |-> a, b |-> 1]
Frac(a, b) == [kind |-> "frac", a |-> a, b |-> b]
ManySizes == {None, Abs(1), Abs(2), Abs(3), Frac(1, 2), Frac(1, 3), Frac(2, 3), Frac(1, 4), Frac(3, 4), Frac(1, 10)}
FewSizes == {None, Abs(1), Abs(2), Frac(1, 2), Frac(1, 3)}
NoSizes == {None}
=============================================================================
