---------------------------- MODULE MetricsTrace ----------------------------
(* Decides recorded evaluations of metrics (C14, C16, C17).                *)
EXTENDS Reports, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k
vars == <<c, k>>

DoMetrics(s) == UNION {Obs(s, s.obs[i], s.tag) : i \in DOMAIN s.obs}

\* unusable inputs
DoRefuse(s) == UNION {Clause(s.outs[i][2] = "exc:ValueError", s.tag, s.outs[i][1] \o ": accepted " \o s.why) : i \in DOMAIN s.outs}

DoBinary(s) ==
    LET D == {s.x[i] : i \in DOMAIN s.x} IN         \* scores in units of 1/2, 99 is not a number
    Clause(s.out = "ok" /\ s.uniform = (D # {} /\ D \subseteq {0, 2}), "C16", "is_binary_score")
    \cup Clause(s.out = "ok" /\ s.mixed = (D = {0, 2}), "C16", "is_binary_score without uniform arrays")

\* variance with gamma prior.  x: finite values, a and b in units of 10^-12
DoVar(s) ==
    LET n == Len(s.x)
        x == Bigs(s.x)
        sum == SumBig(x)
        ss == DivInt(DivInt(Fix(SqSumBig(x)), s.E), s.E)
        sq == DivInt(DivInt(DivInt(Fix(Mul(sum, sum)), n), s.E), s.E)
        num == Add(MulInt(s.b, 2), Sub(ss, sq))
        den == Add(MulInt(s.a, 2), FI(n))
    IN IF n = 0 \/ (s.force /\ s.nonfinite)
       THEN Clause(s.out = "exc:ValueError", "C17", "unusable input of variance")
       ELSE Clause(s.out = "ok" /\ s.argsok, "C17", "variance failed")
            \cup IF s.out # "ok" THEN {} ELSE
                 Clause(OkNum(s.var) /\ s.pos, "C17", "variance is not positive")
            \cup Clause(/\ OkNum(s.var)
                        /\ \/ Leq(Abs(Sub(FMul(s.var, den), num)), FMul(Tol(s), Add(ss, One)))
                           \/ (Leq(num, FMul(Tol(s), ss)) /\ ss.s # 0), "C17", "variance")
            \cup Clause(~s.full \/ s.cnt = n, "C17", "number of used values")

\* mean of a statistic over folds.  The statistic is
\* "one"  sum(a);  "two"  sum(a) sum(b) - 2 sum(b);
\* "vec"  <<sum(a), sum(b), n, n sum(a) sum(b)>>
Stat(kind, args) ==
    CASE kind = "one" -> <<SumOf(args[1])>>
      [] kind = "two" -> <<Sub(Mul(SumOf(args[1]), SumOf(args[2])), MulInt(SumOf(args[2]), 2))>>
      [] kind = "vec" -> <<SumOf(args[1]), SumOf(args[2]), I(Len(args[1])),
                         MulInt(Mul(SumOf(args[1]), SumOf(args[2])), Len(args[1]))>>
DoMean(s) ==
    LET K == Len(s.folds)
        st == [i \in 1..K |-> Stat(s.kind, s.folds[i])]
        m == Len(st[1])
    IN IF s.gap THEN Clause(s.out # "ok", "C17", "mean over folds that an argument lacks") ELSE
       Clause(s.out = "ok" /\ s.argsok, "C17", "mean of statistics failed")
       \cup IF s.out # "ok" THEN {} ELSE
            Clause(/\ Len(s.res) = m
                   /\ \A j \in 1..m : Is(s.res[j], DivInt(Fix(SumBig([i \in 1..K |-> st[i][j]])), K), Tol(s)),
                   "C17", "mean of statistics over folds")
            \cup Clause(s.shapeok, "C17", "shape of the mean of statistics")

Verdicts(s) == CASE s.op = "metrics" -> DoMetrics(s)
                 [] s.op = "refuse" -> DoRefuse(s)
                 [] s.op = "binary" -> DoBinary(s)
                 [] s.op = "var" -> DoVar(s)
                 [] s.op = "mean" -> DoMean(s)

Init == c \in 1..Len(Cases) /\ k = 0
Step == /\ k = 0
        /\ LET bad == Verdicts(Cases[c]) IN
           bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> 1, op |-> Cases[c].op, bad |-> bad]))
        /\ k' = 1 /\ UNCHANGED c
Done == k = 1 /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
