----------------------------- MODULE FactorTrace -----------------------------
(***************************************************************************)
(* Life of a factor model, decided against recorded runs (C10, C11, C12):  *)
(*    fit -> (optimizer asks for objective and gradient)* -> final         *)
(*        -> predict*          and again fit ...                           *)
(* The specification carries the data being fitted and the parameters the  *)
(* model holds; every recorded answer has to follow from them.             *)
(***************************************************************************)
EXTENDS Factor, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k, job, par, obj0
vars == <<c, k, job, par, obj0>>

Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}
Tag(m) == CASE m = "pmf" -> "C10" [] m = "log" -> "C11" [] m = "imp" -> "C12"
Tol == Eps(8)
Row(ids, x) == IF \E r \in DOMAIN ids : ids[r] = x THEN CHOOSE r \in DOMAIN ids : ids[r] = x ELSE 0

\* what data a model takes: d.kind is "plain" (no scores) or "scored"; scores and domain
\* are in units of 1/8
Demand(model, d) ==
    CASE model = "imp" -> "ok"
      [] d.kind = "plain" -> "exc:TypeError"
      [] model = "pmf" -> "ok"
      [] OTHER -> IF /\ d.dom = <<0, 8, 8>> /\ d.levels = 2
                     /\ {d.sc[i] : i \in DOMAIN d.sc} = {0, 8}
                  THEN "ok" ELSE "exc:ValueError"

\* terms of the objective for fit step s
Terms(s) ==
    LET R == [t \in DOMAIN s.d.ev |-> <<Row(s.users, s.d.ev[t][s.ix[1] + 1]), Row(s.items, s.d.ev[t][s.ix[2] + 1])>>]
    IN IF s.model = "imp"
       THEN LET Q == Pairs(Len(s.users), Len(s.items))
            IN [t \in DOMAIN Q |-> <<Q[t][1], Q[t][2], IF Positive(R, Q[t][1], Q[t][2]) THEN One ELSE Zero>>]
       ELSE [t \in DOMAIN R |-> <<R[t][1], R[t][2], FQ(s.d.sc[t], 8)>>]

\* column x (from 0) of the events names objects of the type s.ot[x + 1]; ids are the known ones
Known(s, x, ids) ==
    /\ Cardinality({ids[i] : i \in DOMAIN ids}) = Len(ids)
    /\ {ids[i] : i \in DOMAIN ids} =
         UNION {{s.d.ev[t][y] : t \in DOMAIN s.d.ev} : y \in {z \in DOMAIN s.ot : s.ot[z] = s.ot[x + 1]}}

NoJob == [model |-> "none"]
NoPar == [mu |-> Zero]

DoFit(s) ==
    Clause(s.out = Demand(s.model, s.d), Tag(s.model), "acceptance of data")
    \cup IF s.out # "ok" THEN {} ELSE
         Clause(Known(s, s.ix[1], s.users) /\ Known(s, s.ix[2], s.items), Tag(s.model), "known users and items")

WitnessesOk(P, T, W) == job.model = "pmf" \/
    \A t \in DOMAIN T : WitnessOk(Raw(P, T[t][1], T[t][2], job.k), T[t][3], W[t])

\* objective and gradient at a point x.  The recorder guarantees that witnesses belong
\* to the terms it derived itself: a mismatch means that the terms differ.
DoProbe(s) ==
    IF ~s.finite THEN Clause(s.fl, Tag(job.model), "objective or gradient is not finite")
    ELSE IF ~Shaped(s.x, Len(job.users), Len(job.items), job.k)
    THEN {<<Tag(job.model), "number of parameters">>}
    ELSE LET O == Objective(job.model, s.x, job.T, job.k, job.C, s.w)
             D == Delta(job.model, s.x, job.T, job.k, s.w)
         IN Clause(s.fl, Tag(job.model), "objective or gradient is not finite")
            \cup Clause(WitnessesOk(s.x, job.T, s.w), Tag(job.model), "witness")
            \cup IF ~s.fl THEN {} ELSE
                 Clause(Near(s.f, O, Tol), Tag(job.model), "objective")
            \cup Clause(Shaped(s.g, Len(job.users), Len(job.items), job.k)
                        /\ NearPar(s.g, Gradient(s.x, job.T, job.k, job.C, D), Tol), Tag(job.model), "gradient")

\* what the optimizer is given, of the arguments of the constructor: a limit of iterations
\* takes precedence over one among the options, and nothing is displayed unless asked for
Given(a) ==
    LET opts == {a.options[j] : j \in DOMAIN a.options}
        own == (IF a.maxiter = <<>> THEN {} ELSE {<<"maxiter", a.maxiter[1]>>}) \cup (IF a.tol = <<>> THEN {} ELSE {<<"tol", a.tol[1]>>})
        had(n) == \E p \in opts : p[1] = n
    IN own \cup {p \in opts : p[1] # "maxiter" \/ a.maxiter = <<>>} \cup (IF had("disp") THEN {} ELSE {<<"disp", "False">>})

\* the end of a fit
DoFinal(s) ==
    LET m == Tag(job.model) IN
    Clause(s.same, m, "fitted parameters are not those of the optimizer")
    \cup (IF s.injected
          THEN Clause(s.calls, m, "optimizer was not called with the objective")
          \cup Clause({s.got[j] : j \in DOMAIN s.got} = Given(s.asked), m, "options of the optimizer")
          \cup Clause(s.answered = s.reported, m, "report of the optimizer")
          \cup Clause(obj0.m = <<>> \/ Near(s.initial, obj0, Tol), m, "initial loss")
          \cup Clause(Near(s.final, s.answer, Tol), m, "final loss is not that of the optimizer")
          ELSE IF ~Shaped(s.par, Len(job.users), Len(job.items), job.k)
          THEN {<<m, "number of parameters">>}
          ELSE Clause(WitnessesOk(s.par, job.T, s.w), Tag(job.model), "witness")
          \cup Clause(Near(s.final, Objective(job.model, s.par, job.T, job.k, job.C, s.w), Eps(6)), m, "final loss")
          \cup Clause(Leq(s.final, s.initial), m, "loss increased"))

\* the 0/1 matrix of implicit feedback
DoMatrix(s) ==
    Clause(s.bad = "exc:TypeError", "C12", "unknown kind of matrix")
    \cup Clause(/\ s.out = "ok"
                /\ s.cells = [t \in 1..(Len(job.users) * Len(job.items)) |-> IF job.T[t][3] = One THEN 1 ELSE 0],
                "C12", "matrix of events")

\* data of many users and items (see Factor); s.d.sc is 0 or 8 everywhere
DoWide(s) ==
    LET m == Tag(s.model)
        nu == Len(s.users)
        ni == Len(s.items)
        C == FQ(s.C, 8)
        z == FQ(s.z, 8)
        f == FQ(s.f, 8)
        rows(ids) == [x \in {ids[r] : r \in DOMAIN ids} |-> Row(ids, x)]
        ur == rows(s.users)
        ir == rows(s.items)
        R == [t \in DOMAIN s.d.ev |-> <<ur[s.d.ev[t][1]], ir[s.d.ev[t][2]]>>]
        N == Counts(s.model, R, [t \in DOMAIN s.d.ev |-> s.d.sc # <<>> /\ s.d.sc[t] = 8], nu, ni)
    IN Clause(s.out = "ok", m, "fit to data of many users and items")
       \cup IF s.out # "ok" THEN {}
       ELSE IF ~(Known(s, 0, s.users) /\ Known(s, 1, s.items)) THEN {<<m, "known users and items">>}
       ELSE Clause(WitnessOk(z, Zero, s.w[1]) /\ WitnessOk(z, One, s.w[2]), m, "witness")
       \cup Clause(Near(s.value, WideObjective(s.model, N, z, f, nu, C, s.w[1], s.w[2]), Tol), m, "objective")
       \cup Clause(Shaped(s.g, nu, ni, s.k) /\ NearPar(s.g, WideGradient(s.model, N, z, f, nu, ni, s.k, C, s.w[1]), Tol), m, "gradient")
       \cup Clause(s.model # "imp" \/ /\ s.ones /\ Len(s.nz) = N.pos
                                      /\ {s.nz[j] : j \in DOMAIN s.nz} = {R[t] : t \in DOMAIN R}, m, "matrix of events")

DoPredict(s) ==
    LET m == Tag(job.model)
        Z(t) == Raw(par, Row(job.users, s.eev[t][job.ix[1] + 1]), Row(job.items, s.eev[t][job.ix[2] + 1]), job.k)
        isunk(t) == \E j \in {1, 2} : Row(IF j = 1 THEN job.users ELSE job.items, s.eev[t][job.ix[j] + 1]) = 0
        unk == {t \in DOMAIN s.eev : isunk(t)}
        good(t) == IF job.model = "pmf" THEN Near(s.val[t], Z(t), Tol)
                   ELSE IsInverse(s.val[t], Add(One, Exp(Neg(Z(t)))), Tol)
    IN Clause(s.out = "ok" /\ Len(s.val) = Len(s.eev), m \o (IF unk = {} THEN ",C07" ELSE ",C07,C08"), "prediction failed")
       \cup IF s.out # "ok" \/ Len(s.val) # Len(s.eev) THEN {} ELSE
            Clause(job.model = "pmf" \/ \A t \in DOMAIN s.unit : s.unit[t], m, "prediction is not a probability")
       \cup (IF s.extreme THEN {}
             ELSE Clause(\A t \in DOMAIN s.eev \ unk : good(t), m \o ",C07", "prediction of known objects")
                  \cup Clause(\A t \in unk : good(t), m \o ",C08", "prediction of unknown objects"))

Verdicts(s) == CASE s.op = "fit" -> DoFit(s)
                 [] s.op = "probe" -> DoProbe(s)
                 [] s.op = "matrix" -> DoMatrix(s)
                 [] s.op = "final" -> DoFinal(s)
                 [] s.op = "wide" -> DoWide(s)
                 [] s.op = "predict" -> DoPredict(s)

Init == c \in 1..Len(Cases) /\ k = 0 /\ job = NoJob /\ par = NoPar /\ obj0 = Zero
\* events and scores are given s.d.times times over, and objective, gradient and losses are
\* recorded divided by that: the same as a weaker regularization
Step == /\ k < Len(Cases[c].steps)
        /\ LET s == Cases[c].steps[k + 1]
               bad == Verdicts(s)
           IN /\ bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> k + 1, op |-> s.op, bad |-> bad]))
              /\ job' = IF s.op = "fit" /\ s.out = "ok"
                        THEN [model |-> s.model, T |-> Terms(s), k |-> s.k, C |-> DivInt(FQ(s.C, 8), s.d.times),
                              users |-> s.users, items |-> s.items, ix |-> s.ix]
                        ELSE job
              /\ par' = IF s.op = "final" THEN s.par ELSE par
              /\ obj0' = IF s.op = "fit" THEN Zero
                         ELSE IF s.op = "probe" /\ s.start /\ s.finite /\ s.fl
                         THEN s.f ELSE obj0
        /\ k' = k + 1 /\ UNCHANGED c
Done == k = Len(Cases[c].steps) /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
