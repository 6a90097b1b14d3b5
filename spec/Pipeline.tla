------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Experiments, merging of their folds, statistics and JSON output.        *)
(*                                                                         *)
(* rows: the lines of an input file, a sequence of [ev |-> <<user, item>>, *)
(* sc |-> score in units of 1/E, ts |-> time stamp or ""].                 *)
(* A fold of a cross validation is described by the sequence of numbers    *)
(* (from 0) of its test rows, the mask.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Spl == INSTANCE Splits
LOCAL Sc == INSTANCE Scores

Rng(q) == {q[i] : i \in DOMAIN q}
Users(rows) == {rows[i].ev[1] : i \in DOMAIN rows}
Items(rows) == {rows[i].ev[2] : i \in DOMAIN rows}
UserLabels(rows) == [i \in DOMAIN rows |-> rows[i].ev[1]]

\* the domain used: the requested one, or an estimate if it is not given
Domain(rows, requested) ==
    IF requested # <<>> THEN requested
    ELSE LET X == {rows[i].sc : i \in DOMAIN rows} IN <<Sc!SMin(X), Sc!SMax(X), Sc!Gap(X)>>
\* scores are binarized for the item finders; E for 1, threshold at the center of the domain
Used(rows, dom, binary, E) ==
    IF ~binary THEN rows
    ELSE [i \in DOMAIN rows |-> [rows[i] EXCEPT !.sc = E * Sc!Binarized(2 * rows[i].sc, dom[1] + dom[2])]]

\* test sets
FoldNames(K, only) == IF only = <<>> THEN {ToString(f) : f \in 0..(K - 1)} ELSE {ToString(only[1])}
MaskOk(rows, mask) == Spl!Distinct(mask) /\ Rng(mask) \subseteq 0..(Len(rows) - 1)
Fifth(rows, mask) ==
    LET lab == UserLabels(rows) IN
    \A g \in Users(rows) :
        LET M == Spl!Members(lab, g) IN
        Cardinality(Rng(mask) \cap M) \in Spl!TestSizes(Cardinality(M), [kind |-> "frac", a |-> 1, b |-> 5])
Pick(rows, mask) == [j \in DOMAIN mask |-> rows[mask[j] + 1]]
Evs(rows) == [j \in DOMAIN rows |-> rows[j].ev]
Scs(rows) == [j \in DOMAIN rows |-> rows[j].sc]
Tss(rows) == [j \in DOMAIN rows |-> rows[j].ts]

----------------------------------------------------------------------------
\* Results of runs, and merging.  A result is a function from names of folds to
\* what was recorded of the fold.
First(r) == r
Rest(acc, r) == r @@ acc
RECURSIVE MergeSeq(_)
MergeSeq(q) == IF Len(q) = 1 THEN First(q[1]) ELSE Rest(MergeSeq(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])

----------------------------------------------------------------------------
\* statistics pool the folds
RECURSIVE Pool(_)
Pool(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Pool(Tail(qs))

----------------------------------------------------------------------------
(* JSON output.  Values are trees:                                         *)
(*   [k |-> "leaf", v |-> text]            a plain number, truth value, text *)
(*   [k |-> "np", v |-> text]              a numpy scalar                    *)
(*   [k |-> "arr", shape |-> <<..>>, v |-> <<tree, ..>>]   row by row        *)
(*   [k |-> "sp", shape |-> <<r, c>>, v |-> <<<<i, j, text>>, ..>>, zero |-> text] *)
(*   [k |-> "list", v |-> <<tree, ..>>], [k |-> "dict", v |-> <<<<key, tree>>, ..>>] *)
Leaf(v) == [k |-> "leaf", v |-> v]
ListOf(q) == [k |-> "list", v |-> q]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE Nest(_, _)
Nest(shape, flat) ==
    IF shape = <<>> THEN flat[1]
    ELSE LET m == Prod(Tail(shape)) IN
         ListOf([i \in 1..Head(shape) |-> Nest(Tail(shape), SubSeq(flat, (i - 1) * m + 1, i * m))])
SparseAt(x, i, j) ==
    LET P == {n \in DOMAIN x.v : x.v[n][1] = i /\ x.v[n][2] = j}
    IN IF P = {} THEN Leaf(x.zero) ELSE Leaf(x.v[CHOOSE n \in P : TRUE][3])
RECURSIVE Plain(_)
Plain(x) ==
    CASE x.k \in {"leaf", "np"} -> Leaf(x.v)
      [] x.k = "arr" -> Nest(x.shape, [i \in DOMAIN x.v |-> Plain(x.v[i])])
      [] x.k = "sp" -> ListOf([i \in 1..x.shape[1] |-> ListOf([j \in 1..x.shape[2] |-> SparseAt(x, i - 1, j - 1)])])
      [] x.k = "list" -> ListOf([i \in DOMAIN x.v |-> Plain(x.v[i])])
      [] x.k = "dict" -> [k |-> "dict", v |-> [i \in DOMAIN x.v |-> <<x.v[i][1], Plain(x.v[i][2])>>]]
\* dictionaries have no order
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "leaf" -> a.v = b.v
         [] a.k = "list" -> Len(a.v) = Len(b.v) /\ \A i \in DOMAIN a.v : Same(a.v[i], b.v[i])
         [] a.k = "dict" -> /\ Len(a.v) = Len(b.v)
                            /\ \A i \in DOMAIN a.v : \E j \in DOMAIN b.v :
                                  a.v[i][1] = b.v[j][1] /\ Same(a.v[i][2], b.v[j][2])
         [] OTHER -> FALSE
=============================================================================
