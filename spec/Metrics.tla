------------------------------ MODULE Metrics -------------------------------
(***************************************************************************)
(* Definitions of evaluation metrics over exact numbers (module Num).      *)
(* Scores are TLC integers in units of 1/E.                                *)
(***************************************************************************)
EXTENDS Num, FiniteSets

SumOf(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN Zero ELSE Add(F[i - 1], I(q[i])) IN F[Len(q)]
SumSqOf(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN Zero ELSE Add(F[i - 1], Mul(I(q[i]), I(q[i]))) IN F[Len(q)]
SumBig(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN Zero ELSE Add(F[i - 1], q[i]) IN F[Len(q)]
SqSumBig(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN Zero ELSE Add(F[i - 1], Mul(q[i], q[i])) IN F[Len(q)]

RECURSIVE DivN(_, _, _)
DivN(x, E, k) == IF k = 0 THEN x
                 ELSE IF E > 100000 THEN DivN(DivInt(DivInt(x, 10000), E \div 10000), E, k - 1)
                 ELSE DivN(DivInt(x, E), E, k - 1)
\* mean and (population) variance of a sequence of integer numbers in units of 1/E^k
MeanBig(q, E, k) == DivN(DivInt(Fix(SumBig(q)), Len(q)), E, k)
VarBig(q, E, k) ==
    LET n == Len(q)
        s == SumBig(q)
        v == Sub(MulInt(SqSumBig(q), n), Mul(s, s))       \* n^2 E^2 var
    IN DivN(DivInt(DivInt(Fix(v), n), n), E, 2 * k)

Bigs(q) == [i \in DOMAIN q |-> I(q[i])]
Errs(t, p) == [i \in DOMAIN t |-> I(IF t[i] > p[i] THEN t[i] - p[i] ELSE p[i] - t[i])]
SqErrs(t, p) == [i \in DOMAIN t |-> Mul(I(t[i] - p[i]), I(t[i] - p[i]))]

\* a number r is the square root of v; both fixed-point
IsRoot(r, v, tol) == /\ r.s >= 0
                     /\ Leq(Abs(Sub(FSq(r), v)), FMul(tol, Add(One, v)))

\* twice the number of (positive, negative) pairs in the right order, ties once
PairScore(t, p) ==
    LET P == {i \in DOMAIN t : t[i] = 1}
        N == {i \in DOMAIN t : t[i] = 0}
        gt == Cardinality({x \in P \X N : p[x[1]] > p[x[2]]})
        eq == Cardinality({x \in P \X N : p[x[1]] = p[x[2]]})
    IN 2 * gt + eq
Positives(t) == Cardinality({i \in DOMAIN t : t[i] = 1})
Negatives(t) == Cardinality({i \in DOMAIN t : t[i] = 0})
=============================================================================
