------------------------------- MODULE Scores -------------------------------
(***************************************************************************)
(* Score domains, levels, bins, digitization and histograms.               *)
(* All quantities are integers in units of 1/E for some unit E.  A domain  *)
(* is given by its minimum A, its stride S > 0 and its number of levels n, *)
(* so that its range is a whole number of strides.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Level(A, S, i) == A + S * i                     \* i in 0..n-1
MaxOf(A, S, n) == Level(A, S, n - 1)
Dist(x, y) == IF x > y THEN x - y ELSE y - x

\* indexes of the levels nearest to x: two of them in the case of a tie
Nearest(A, S, n, x) == {i \in 0..(n - 1) :
                          \A j \in 0..(n - 1) : Dist(x, Level(A, S, i)) <= Dist(x, Level(A, S, j))}
\* an equivalent computation, fast for long domains (see ScoresMC)
NearestFast(A, S, n, x) ==
    LET lo == (x - A) \div S                     \* floor
        Cl(i) == IF i < 0 THEN 0 ELSE IF i > n - 1 THEN n - 1 ELSE i
        a == Cl(lo)
        b == Cl(lo + 1)
        da == Dist(x, Level(A, S, a))
        db == Dist(x, Level(A, S, b))
    IN IF da < db THEN {a} ELSE IF db < da THEN {b} ELSE {a, b}

\* twice the boundary between levels i-1 and i, 1 <= i <= n-1
Boundary2(A, S, i) == Level(A, S, i - 1) + Level(A, S, i)

\* histogram of a digitization
Hist(n, dig) == [j \in 1..n |-> Cardinality({i \in DOMAIN dig : dig[i] = j - 1})]

\* domain estimated from different scores
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Gap(S) == SMin({x - y : <<x, y>> \in {p \in S \X S : p[1] > p[2]}})

Binarized(x, thr) == IF x <= thr THEN 0 ELSE 1
=============================================================================
