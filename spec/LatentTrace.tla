----------------------------- MODULE LatentTrace -----------------------------
(***************************************************************************)
(* Fitting of a latent class model by expectation maximization, decided    *)
(* against recorded runs (C13).                                            *)
(*                                                                         *)
(* A case is one model and one data set.  The model is fitted with growing *)
(* limits of iterations, which makes the run of the algorithm observable   *)
(* step by step: the specification carries the sequence of parameters and  *)
(* losses passed so far and judges every continuation from it.             *)
(***************************************************************************)
EXTENDS Latent, TLC, Json, IOUtils

Sc == INSTANCE Scores

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k, job, run, th
vars == <<c, k, job, run, th>>

Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}
T13(ok, name) == Clause(ok, "C13", name)
Row(ids, x) == IF \E r \in DOMAIN ids : ids[r] = x THEN CHOOSE r \in DOMAIN ids : ids[r] = x ELSE 0
Known(s, x, ids) ==
    /\ Cardinality({ids[i] : i \in DOMAIN ids}) = Len(ids)
    /\ {ids[i] : i \in DOMAIN ids} =
         UNION {{s.ev[t][y] : t \in DOMAIN s.ev} : y \in {z \in DOMAIN s.ot : s.ot[z] = s.ot[x + 1]}}

\* s: a fit step; scores sc and the domain A, S, n are in units of 1/E
Terms(s) == [t \in DOMAIN s.ev |->
               <<Row(s.users, s.ev[t][s.ix[1] + 1]), Row(s.items, s.ev[t][s.ix[2] + 1]),
                 (CHOOSE i \in Sc!NearestFast(s.A, s.S, s.n, s.sc[t]) : TRUE) + 1>>]
Levels(s) == [i \in 1..s.n |-> FQ(Sc!Level(s.A, s.S, i - 1), s.E)]

Ran(q) == {q[i] : i \in DOMAIN q}
NoJob == [T |-> <<>>]
DoFit(s) == T13(s.out = "ok", "fit failed")
            \cup T13(Known(s, s.ix[1], s.users) /\ Known(s, s.ix[2], s.items), "known users and items")

\* the t-th member of the run: the fit with t iterations
DoIter(s) ==
    LET ok == s.out = "ok" /\ Shaped(s.th, Len(job.users), Len(job.items), Len(job.lev), job.K) IN
    T13(ok, "fit failed")
    \cup IF ~ok THEN {} ELSE
         T13(Proper(s.th, job.K), "not a proper distribution")
    \cup T13(LossWitness(s.th, job.T, job.K, s.w), "witness")
    \cup T13(Near(s.loss, Loss(job.T, s.w), Eps(8)), "final loss")
    \cup T13(s.nit = s.t /\ s.status = 2 /\ ~s.success, "iterations or status of a fit that ran out of iterations")
    \cup (IF s.t = 0 THEN T13(Near(s.initial, s.loss, Eps(10)), "initial loss")
          ELSE T13(Near(s.initial, run[1].loss, Eps(10)), "initial loss")
               \cup (IF Len(run) = s.t
                     THEN T13(Posterior(th, job.T, job.K, s.q), "witness of posterior")
                          \cup T13(Maximized(s.th, job.T, job.K, s.q, job.al), "not an EM step")
                          \cup T13(job.al.s # 0 \/ Leq(s.loss, Add(run[s.t].loss, Eps(9))), "loss increased")
                     ELSE {}))

\* a longer run, of which only losses were recorded
DoLoss(s) ==
    T13(s.out = "ok" /\ s.nit = s.t /\ s.status = 2 /\ ~s.success, "iterations or status of a fit that ran out of iterations")
    \cup T13(job.al.s # 0 \/ Len(run) # s.t \/ Leq(s.loss, Add(run[s.t].loss, Eps(9))), "loss increased")

\* a fit with a tolerance: stops at the first step at which the relative change of the loss is
\* below it; e is the margin for rounding
Delta(t) == Abs(Sub(run[t + 1].loss, run[t].loss))
Bound(t, tol) == FMul(tol, Abs(run[t + 1].loss))
MayStop(t, tol) == Lt(Delta(t), Add(Bound(t, tol), Eps(10)))
MustStop(t, tol) == Lt(Add(Delta(t), Eps(10)), Bound(t, tol))
DoTol(s) ==
    T13(s.out = "ok", "fit failed")
    \cup IF s.out # "ok" THEN {} ELSE
         T13(/\ s.success = (s.status = 0) /\ s.status \in {0, 2}
             /\ s.nit <= s.maxiter
             /\ \A t \in 1..s.nit : (t < Len(run) /\ (t < s.nit \/ s.status = 2)) => ~MustStop(t, s.tol)
             /\ (s.status = 0 /\ s.nit < Len(run)) => (s.nit >= 1 /\ MayStop(s.nit, s.tol))
             /\ s.status = 2 => s.nit = s.maxiter, "status or number of iterations")
    \cup T13(s.nit >= Len(run) \/ Near(s.loss, run[s.nit + 1].loss, Eps(9)), "reported loss is not that of the final parameters")
    \cup T13(Near(s.initial, run[1].loss, Eps(10)), "initial loss")
    \cup T13(s.nit >= Len(run) \/ run[s.nit + 1].z = <<>> \/
             \A j \in 1..job.K : Near(s.z[j], run[s.nit + 1].z[j], Eps(8)), "final parameters")

DoPredict(s) ==
    Clause(s.out = "ok" /\ Len(s.val) = Len(s.eev),
           IF \E e \in Ran(s.eev) : \E j \in {1, 2} : Row(IF j = 1 THEN job.users ELSE job.items, e[job.ix[j] + 1]) = 0
           THEN "C13,C07,C08" ELSE "C13,C07", "prediction failed")
    \cup IF s.out # "ok" \/ Len(s.val) # Len(s.eev) THEN {} ELSE
         LET u(t) == Row(job.users, s.eev[t][job.ix[1] + 1])
             i(t) == Row(job.items, s.eev[t][job.ix[2] + 1])
             lo == job.lev[1]
             hi == job.lev[Len(job.lev)]
         IN T13(\A t \in DOMAIN s.val :
                     \/ ~Likely(SumOver(Len(job.lev), LAMBDA l : Prob(th, u(t), i(t), l, job.K)))
                     \/ Leq(lo, Add(s.val[t], Eps(9))) /\ Leq(s.val[t], Add(hi, Eps(9))),
                "prediction is out of the score domain")
            \cup LET good(t) == IF s.mode THEN ModeIs(th, u(t), i(t), job.K, job.lev, s.val[t])
                               ELSE ExpectedIs(th, u(t), i(t), job.K, job.lev, s.val[t])
                     known == {t \in DOMAIN s.val : u(t) # 0 /\ i(t) # 0}
                 IN Clause(\A t \in known : good(t), "C13,C07", "prediction of known objects")
                    \cup Clause(\A t \in DOMAIN s.val \ known : good(t), "C13,C08", "prediction of unknown objects")

Verdicts(s) == CASE s.op = "fit" -> DoFit(s)
                 [] s.op = "iter" -> DoIter(s)
                 [] s.op = "loss" -> DoLoss(s)
                 [] s.op = "tol" -> DoTol(s)
                 [] s.op = "predict" -> DoPredict(s)

Init == c \in 1..Len(Cases) /\ k = 0 /\ job = NoJob /\ run = <<>> /\ th = <<>>
\* every event is given s.times times over: the same as having fewer prior counts
Step == /\ k < Len(Cases[c].steps)
        /\ LET s == Cases[c].steps[k + 1]
               bad == Verdicts(s)
           IN /\ bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> k + 1, op |-> s.op, bad |-> bad]))
              /\ job' = IF s.op = "fit"
                        THEN [T |-> Terms(s), K |-> s.k, al |-> DivInt(MulInt(DivInt(Unit, 8), s.al), s.times),
                              users |-> s.users, items |-> s.items, ix |-> s.ix, lev |-> Levels(s)]
                        ELSE job
              /\ th' = IF s.op = "iter" /\ s.out = "ok" THEN s.th ELSE th
              /\ run' = CASE s.op = "fit" -> <<>>
                          [] s.op \in {"iter", "loss"} /\ s.out = "ok" /\ s.t = Len(run) ->
                                Append(run, [loss |-> s.loss,
                                             z |-> IF s.op = "iter" THEN [j \in DOMAIN s.th.z |-> DivInt(DivInt(DivInt(s.th.z[j], 10000), 10000), 10000)] ELSE <<>>])
                          [] OTHER -> run
        /\ k' = k + 1 /\ UNCHANGED c
Done == k = Len(Cases[c].steps) /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
