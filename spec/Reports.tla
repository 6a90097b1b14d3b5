------------------------------ MODULE Reports -------------------------------
(***************************************************************************)
(* What reports of recommendation results have to say.  A report o is the  *)
(* record of the quantities that were reported on the true scores s.t and  *)
(* the predicted scores s.p, integers in units of 1/s.E (s.rank, if given, *)
(* orders predictions too close to differ in these units); s.t01 are true  *)
(* scores as 0 and 1, and numbers need to be right to s.prec digits.       *)
(* The samples are given s.rep times over.                                 *)
(***************************************************************************)
EXTENDS Metrics, TLC

Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}
OkNum(x) == "nan" \notin DOMAIN x
\* relative for large values
Is(x, v, tol) == OkNum(x) /\ Leq(Abs(Sub(x, v)), FMul(tol, Add(One, Abs(v))))
Root(x, v, tol) == OkNum(x) /\ IsRoot(x, v, tol)
Tol(s) == Eps(s.prec)

\* errors of predictions: every field that was reported must be right
ErrFields(s, o, tag) ==
    LET e == Errs(s.t, s.p)
        q == SqErrs(s.t, s.p)
        F(f, ok) == f \notin DOMAIN o \/ ok
        tol == Tol(s)
    IN  Clause(F("mae", Is(o.mae, MeanBig(e, s.E, 1), tol)), tag, o.who \o ": mean absolute error")
    \cup Clause(F("maesd", Root(o.maesd, VarBig(e, s.E, 1), tol)), tag, o.who \o ": stdev of absolute errors")
    \cup Clause(F("mse", Is(o.mse, MeanBig(q, s.E, 2), tol)), tag, o.who \o ": mean squared error")
    \cup Clause(F("msesd", Root(o.msesd, VarBig(q, s.E, 2), tol)), tag, o.who \o ": stdev of squared errors")
    \cup Clause(F("rmse", Root(o.rmse, MeanBig(q, s.E, 2), tol)), tag, o.who \o ": root mean squared error")

Descr(s, o, tag) ==
    LET F(f, ok) == f \notin DOMAIN o \/ ok
        tol == Tol(s)
        t == Bigs(s.t)
        p == Bigs(s.p)
    IN  Clause(F("n", o.n = Len(s.t) * s.rep), tag, o.who \o ": number of samples")
    \cup Clause(F("tm", Is(o.tm, MeanBig(t, s.E, 1), tol)), tag, o.who \o ": mean of true scores")
    \cup Clause(F("ts", Root(o.ts, VarBig(t, s.E, 1), tol)), tag, o.who \o ": stdev of true scores")
    \cup Clause(F("pm", Is(o.pm, MeanBig(p, s.E, 1), tol)), tag, o.who \o ": mean of predicted scores")
    \cup Clause(F("ps", Root(o.ps, VarBig(p, s.E, 1), tol)), tag, o.who \o ": stdev of predicted scores")

Obs(s, o, tag) ==
    Clause(o.out = "ok", tag, o.who \o ": failed")
    \cup Clause(o.argsok, tag, o.who \o ": inputs were modified")
    \cup IF o.out # "ok" THEN {} ELSE
         Clause(o.fields = o.want, tag, o.who \o ": reported fields")
    \cup ErrFields(s, o, tag) \cup Descr(s, o, tag)
    \cup (IF "auc" \in DOMAIN o
          THEN LET pn == Positives(s.t01) * Negatives(s.t01) IN
               Clause(o.hasauc = (pn > 0), tag, o.who \o ": presence of the area under the curve")
               \cup Clause(~o.hasauc \/ pn = 0 \/ Is(o.auc, FQ(PairScore(s.t01, IF "rank" \in DOMAIN s THEN s.rank ELSE s.p), 2 * pn), Tol(s)), tag,
                           o.who \o ": area under the curve")
          ELSE {})
=============================================================================
