----------------------------- MODULE MetricRun ------------------------------
(***************************************************************************)
(* Evaluation as accumulation: samples (true score, predicted score)       *)
(* arrive one by one and sums are kept from which the metrics are computed *)
(* in the end, as the code does it; and folds of such samples over which   *)
(* statistics are averaged.  The computed values must be the definitions   *)
(* in Metrics (C14, C16, C17), which are stated over the whole samples.    *)
(* All quantities are exact: variances are multiplied by n^2, the area     *)
(* under the curve by twice the number of pairs.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ts, Ps,          \* true and predicted scores
          MaxN,            \* samples
          Folds,           \* folds
          Flaws, Emit

VARIABLES t, p,            \* the samples of the present fold
          acc,             \* sums over the present fold
          done             \* finished folds: samples and statistics
vars == <<t, p, acc, done>>

M == INSTANCE Metrics
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE F[i - 1] + q[i] IN F[Len(q)]
Empty == [n |-> 0, e |-> 0, ee |-> 0, t |-> 0, tt |-> 0, p |-> 0, pp |-> 0]

Sample(a, b) ==
    /\ Len(t) < MaxN /\ Len(done) < Folds
    /\ t' = Append(t, a) /\ p' = Append(p, b)
    /\ LET e == IF "signed" \in Flaws THEN b - a ELSE Abs(a - b) IN
       acc' = [n |-> acc.n + 1, e |-> acc.e + e, ee |-> acc.ee + e * e,
               t |-> acc.t + a, tt |-> acc.tt + a * a, p |-> acc.p + b, pp |-> acc.pp + b * b]
    /\ UNCHANGED done

\* mid-ranks: twice the rank of sample i among the predicted scores
Rank2(i) == LET lt == Cardinality({j \in DOMAIN p : p[j] < p[i]})
                eq == Cardinality({j \in DOMAIN p : p[j] = p[i]})
            IN IF "firstrank" \in Flaws
               THEN 2 * (lt + Cardinality({j \in DOMAIN p : p[j] = p[i] /\ j <= i}))
               ELSE 2 * lt + eq + 1
\* twice the rank sum statistic of the positive samples
RankAuc2 == LET P == {i \in DOMAIN t : t[i] = 1}
                S == Sum([i \in DOMAIN t |-> IF t[i] = 1 THEN Rank2(i) ELSE 0])
            IN S - Cardinality(P) * (Cardinality(P) + 1)
\* area by trapezoids under the curve of (false positives, true positives), twice
Thr == {p[i] : i \in DOMAIN p}
TP(c) == Cardinality({i \in DOMAIN t : t[i] = 1 /\ p[i] >= c})
FP(c) == Cardinality({i \in DOMAIN t : t[i] = 0 /\ p[i] >= c})
Above(c) == {x \in Thr : x > c}
Prev(c, f(_)) == IF Above(c) = {} THEN 0 ELSE f(CHOOSE x \in Above(c) : \A y \in Above(c) : x <= y)
SumSet(S, f(_)) == LET R[U \in SUBSET S] == IF U = {} THEN 0 ELSE LET x == CHOOSE x \in U : TRUE IN f(x) + R[U \ {x}] IN R[S]
TrapAuc2 == SumSet(Thr, LAMBDA c : (FP(c) - Prev(c, FP)) * (IF "steps" \in Flaws THEN 2 * TP(c) ELSE TP(c) + Prev(c, TP)))

\* variance times n^2, from the sums
VarN2(s, ss, n) == n * ss - s * s

\* the statistic of a fold that is averaged: mean absolute error times its count of
\* samples squared is not linear in the samples
Stat(n, e, ee) == e * e + n * ee
EndFold ==
    /\ Len(t) > 0 /\ Len(done) < Folds
    /\ done' = Append(done, [t |-> t, p |-> p, stat |-> Stat(acc.n, acc.e, acc.ee)])
    /\ IF "notreset" \in Flaws
       THEN UNCHANGED <<t, p, acc>>
       ELSE t' = << >> /\ p' = << >> /\ acc' = Empty
MeanTotal == IF "pooled" \in Flaws
             THEN LET tt == Sum([i \in DOMAIN done |-> Len(done[i].t)]) IN tt
             ELSE Sum([i \in DOMAIN done |-> done[i].stat])

Show == /\ Len(done) = Folds
        /\ Emit => PrintT("HIST|" \o ToJson([i \in DOMAIN done |-> [t |-> done[i].t, p |-> done[i].p]]))
        /\ UNCHANGED vars
Init == t = << >> /\ p = << >> /\ acc = Empty /\ done = << >>
Next == (\E a \in Ts, b \in Ps : Sample(a, b)) \/ EndFold \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Dev2(q) == LET n == Len(q) IN       \* sum of squared differences of pairs = n^2 variance
    SumSet({x \in (DOMAIN q) \X (DOMAIN q) : x[1] < x[2]}, LAMBDA x : (q[x[1]] - q[x[2]]) * (q[x[1]] - q[x[2]]))
ErrSeq == [i \in DOMAIN t |-> Abs(t[i] - p[i])]
SqSeq == [i \in DOMAIN t |-> (t[i] - p[i]) * (t[i] - p[i])]
AbsoluteError == acc.e = Sum(ErrSeq)
SquaredError == acc.ee = Sum(SqSeq)
Spread == /\ VarN2(acc.e, acc.ee, acc.n) = Dev2(ErrSeq)
          /\ VarN2(acc.t, acc.tt, acc.n) = Dev2(t) /\ VarN2(acc.p, acc.pp, acc.n) = Dev2(p)
\* the mean absolute error is at most the root of the mean squared error
Jensen == acc.e * acc.e <= acc.n * acc.ee
PN == M!Positives(t) * M!Negatives(t)
Curve == Ts = {0, 1} => /\ RankAuc2 = M!PairScore(t, p)
                        /\ TrapAuc2 = M!PairScore(t, p)
                        /\ M!PairScore(t, p) <= 2 * PN
\* reversing the order of predictions complements the area
Complement == Ts = {0, 1} => M!PairScore(t, p) + M!PairScore(t, [i \in DOMAIN p |-> -p[i]]) = 2 * PN
\* the definitions over exact numbers say the same
Exact == Len(t) > 0 => /\ M!Eq(M!MulInt(M!MeanBig(M!Bigs(ErrSeq), 1, 1), Len(t)), M!FI(acc.e)) \/ Len(t) \notin {1, 2, 4, 5, 8}
                       /\ M!Errs(t, p) = M!Bigs(ErrSeq)
                       /\ M!SqErrs(t, p) = M!Bigs(SqSeq)
FoldStat(d) == LET e == [i \in DOMAIN d.t |-> Abs(d.t[i] - d.p[i])] IN
               Stat(Len(e), Sum(e), Sum([i \in DOMAIN e |-> e[i] * e[i]]))
FoldMeans == MeanTotal = Sum([i \in DOMAIN done |-> FoldStat(done[i])])
FoldsApart == Len(done) > 1 => Sum([i \in DOMAIN done |-> Len(done[i].t)]) <= Folds * MaxN
Fresh == t = << >> => acc = Empty
Samples == acc.n = Len(t)
Begins == [][Len(done') > Len(done) => Len(t') = 0]_vars
=============================================================================
