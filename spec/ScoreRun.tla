------------------------------ MODULE ScoreRun ------------------------------
(***************************************************************************)
(* Containers of scored events as objects: loading, filtering and          *)
(* binarization in any order, and after each of them the levels, bins,     *)
(* digitization and histogram that the containers report, computed with    *)
(* bins as the code does it.  The bins must realize the definitions of     *)
(* Scores (C05, C15): the level of a score is its nearest one, none is     *)
(* lost.  Scores are multiples of 1/2 unit so that ties occur.             *)
(***************************************************************************)
EXTENDS Scores, TLC, Json, SequencesExt

CONSTANTS As, Ss, Ns,      \* minimums, strides, numbers of levels (in half units)
          MaxLen,          \* scores in a container
          MaxOps,          \* operations after loading
          Flaws, Emit

VARIABLES cs,              \* the containers: [A, S, n, sc] and what they cache
          hist             \* operations so far
vars == <<cs, hist>>

\* scores between the levels and beyond them
Around(A, S, n) == {x \in (A - S)..(MaxOf(A, S, n) + S) : (2 * (x - A)) % S = 0}
Load == /\ cs = << >>
        /\ \E A \in As, S \in Ss, n \in Ns : \E m \in 1..MaxLen : \E sc \in [1..m -> Around(A, S, n)] :
             /\ \A i \in 1..(m - 1) : sc[i] <= sc[i + 1] \/ ~Emit      \* any order is as good in generation
             /\ cs' = <<[A |-> A, S |-> S, n |-> n, sc |-> sc, cA |-> A, cS |-> S, cn |-> n]>>
             /\ hist' = <<[op |-> "load", A |-> A, S |-> S, n |-> n, sc |-> sc]>>
Scored(c, A, S, n, sc) ==
    [A |-> A, S |-> S, n |-> n, sc |-> sc,
     cA |-> IF "cached" \in Flaws THEN c.cA ELSE A,
     cS |-> IF "cached" \in Flaws THEN c.cS ELSE S,
     cn |-> IF "cached" \in Flaws THEN c.cn ELSE n]
\* half units: the level 1 of a binary domain is 2
Binarize(j, t) ==
    /\ cs' = [cs EXCEPT ![j] = Scored(@, 0, 2, 2, [i \in DOMAIN @.sc |->
                2 * (IF "less" \in Flaws THEN (IF @.sc[i] < t THEN 0 ELSE 1) ELSE Binarized(@.sc[i], t))])]
    /\ hist' = Append(hist, [op |-> "binarize", at |-> j, thr |-> t])
\* the default threshold is the center of the domain; it is used where no score is there
Centre(j) == LET c == cs[j] IN
    /\ \A i \in DOMAIN c.sc : 2 * c.sc[i] # c.A + MaxOf(c.A, c.S, c.n)
    /\ cs' = [cs EXCEPT ![j] = Scored(@, 0, 2, 2, [i \in DOMAIN @.sc |->
                IF 2 * @.sc[i] <= @.A + MaxOf(@.A, @.S, @.n) THEN 0 ELSE 2])]
    /\ hist' = Append(hist, [op |-> "centre", at |-> j])
Filter(j, M) ==
    LET keep == SetToSortSeq(M, <)
        c == cs[j]
    IN /\ Len(cs) < 3
       /\ cs' = Append(cs, [c EXCEPT !.sc = [i \in DOMAIN keep |-> c.sc[keep[i]]]])
       /\ hist' = Append(hist, [op |-> "filter", at |-> j, keep |-> [i \in DOMAIN c.sc |-> IF i \in M THEN 1 ELSE 0]])
Ops == /\ Len(hist) > 0 /\ Len(hist) <= MaxOps
       /\ \E j \in DOMAIN cs :
            \/ \E t \in {cs[j].A, cs[j].A + cs[j].S \div 2, MaxOf(cs[j].A, cs[j].S, cs[j].n)} : Binarize(j, t)
            \/ Centre(j)
            \/ \E M \in {{1}, DOMAIN cs[j].sc} : Filter(j, M)
Show == /\ Len(hist) = MaxOps + 1
        /\ Emit => PrintT("HIST|" \o ToJson(hist))
        /\ UNCHANGED vars
Init == cs = << >> /\ hist = << >>
Next == Load \/ Ops \/ Show
Spec == Init /\ [][Next]_vars
NoHist == <<cs, Len(hist)>>

----------------------------------------------------------------------------
\* the algorithm: boundaries half way between the levels, open ends, and the
\* number of boundaries that a score reaches (doubled values)
Bounds2(c) == [i \in 1..(c.cn - 1) |-> IF "offset" \in Flaws THEN (2 * i - 1) * c.cS
                                        ELSE Boundary2(c.cA, c.cS, i)]
Digit(c, x) == IF "floor" \in Flaws THEN
                    LET d == (x - c.cA) \div c.cS IN IF d < 0 THEN 0 ELSE IF d > c.cn - 1 THEN c.cn - 1 ELSE d
               ELSE Cardinality({i \in 1..(c.cn - 1) : Bounds2(c)[i] <= 2 * x})
Inside(c, x) == "closed" \notin Flaws \/ (2 * x >= 2 * c.cA - c.cS /\ 2 * x <= 2 * MaxOf(c.cA, c.cS, c.cn) + c.cS - 1)
Histo(c) == [i \in 1..c.cn |-> Cardinality({p \in DOMAIN c.sc : Inside(c, c.sc[p]) /\ Digit(c, c.sc[p]) = i - 1})]

AllX(c) == (c.A - 2 * c.S)..(MaxOf(c.A, c.S, c.n) + 2 * c.S)
DigitIsNearest == \A j \in DOMAIN cs : \A x \in AllX(cs[j]) : Digit(cs[j], x) \in Nearest(cs[j].A, cs[j].S, cs[j].n, x)
FastIsNearest == \A j \in DOMAIN cs : \A x \in AllX(cs[j]) :
                    NearestFast(cs[j].A, cs[j].S, cs[j].n, x) = Nearest(cs[j].A, cs[j].S, cs[j].n, x)
CountedOnce == \A j \in DOMAIN cs : LET h == Histo(cs[j]) IN
                 /\ Len(h) = cs[j].n
                 /\ FoldSeq(LAMBDA a, b : a + b, 0, h) = Len(cs[j].sc)
                 /\ h = Hist(cs[j].n, [i \in DOMAIN cs[j].sc |-> Digit(cs[j], cs[j].sc[i])])
LevelsAreFixed == \A j \in DOMAIN cs : \A i \in 0..(cs[j].n - 1) : Digit(cs[j], Level(cs[j].A, cs[j].S, i)) = i
Monotone == \A j \in DOMAIN cs : \A x \in AllX(cs[j]) : x + 1 \in AllX(cs[j]) => Digit(cs[j], x) <= Digit(cs[j], x + 1)
\* a score in (0, 1) units after binarization; scores at the threshold are negative
Binary == \A j \in DOMAIN cs : \A h \in DOMAIN hist :
             hist[h].op = "binarize" /\ h = Len(hist) /\ hist[h].at = j
             => \A i \in DOMAIN cs[j].sc : cs[j].sc[i] \in {0, 2}
Threshold == [][\A j \in DOMAIN cs, t \in -20..40 :
                  (Len(hist') > 0 /\ hist'[Len(hist')] = [op |-> "binarize", at |-> j, thr |-> t])
                  => \A i \in DOMAIN cs[j].sc : (cs'[j].sc[i] = 2) <=> (cs[j].sc[i] > t)]_vars

\* minimums for the configurations
FewAs == {-3, 0, 2}
ManyAs == {-7, -3, 0, 2}
=============================================================================
