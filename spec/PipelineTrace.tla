---------------------------- MODULE PipelineTrace ----------------------------
(* Decides recorded runs of the experiment scripts (C22, C23, C24).          *)
EXTENDS Pipeline, Reports, Json, IOUtils

Scor == INSTANCE Scores

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k
vars == <<c, k>>

AllNear(q, r, tol) == Len(q) = Len(r) /\ \A i \in DOMAIN q : OkNum(q[i]) /\ OkNum(r[i]) /\ Near(q[i], r[i], tol)

\* one predicted set of events: o is what was recorded, w the rows that it has to describe
Aligned(s, o, w, who) ==
    Clause(o.ev = Evs(w), "C22", who \o ": events")
    \cup Clause(o.sc = Scs(w), "C22", who \o ": true scores")
    \cup Clause(s.hasts = o.hasts /\ (s.hasts => o.ts = Tss(w)), "C22", who \o ": event features")
    \cup Clause(Len(o.pred) = Len(w), "C22", who \o ": number of predictions")
\* the reference: a model fitted on the training rows only
Fitted(s, o, who) ==
    IF ~o.ref.has THEN {}
    ELSE Clause(AllNear(o.pred, o.ref.pred, Eps(o.ref.prec)), "C22", who \o ": predictions of a model fitted to the training set")
         \cup (IF o.ref.prec < 5 THEN {} ELSE
              Clause(\A i \in DOMAIN o.ref.info :
                       \E j \in DOMAIN o.info : /\ o.info[j].key = o.ref.info[i].key
                                                /\ o.info[j].num = o.ref.info[i].num
                                                /\ IF o.ref.info[i].num THEN Near(o.info[j].v, o.ref.info[i].v, Eps(o.ref.prec))
                                                   ELSE o.info[j].t = o.ref.info[i].t,
                     "C22", who \o ": recorded results of fitting"))
Times(o, who) ==
    Clause(/\ o.t[1] <= o.t[2] /\ o.t[2] <= o.t[3] /\ o.t[3] <= o.t[4]
           /\ o.el[1] = o.t[2] - o.t[1] /\ o.el[2] = o.t[4] - o.t[3], "C22", who \o ": times")
    \cup Clause(o.nev = Len(o.ev), "C22", who \o ": number of tested events")

Common(s, o) ==
    LET dom == Domain(s.rows, s.dom) IN
    Clause(o.dom = dom, "C22", "recorded score domain")
    \cup Clause(o.scheme = s.scheme, "C22", "recorded scheme")
    \cup Clause(o.nfolds = IF s.scheme = "cv" THEN s.K ELSE 1, "C22", "recorded number of folds")
    \cup Clause(Rng(o.opts) = Rng(s.opts), "C22", "recorded hyper-parameters")
    \cup Clause(o.model = s.model, "C22", "recorded model")
    \cup Clause(o.tsflag = s.hasts, "C22", "recorded presence of time stamps")
    \cup Clause(o.trfile /\ o.tefile /\ o.outfile, "C22", "recorded files")
    \cup Clause(o.env, "C22", "recorded environment")
    \cup Clause(o.trsize = <<Len(s.rows), Cardinality(Users(s.rows)), Cardinality(Items(s.rows))>>, "C22", "recorded sizes of training data")
    \cup LET t == IF s.scheme = "cv" THEN s.rows ELSE s.test IN
         Clause(o.tesize = <<Len(t), Cardinality(Users(t)), Cardinality(Items(t))>>, "C22", "recorded sizes of test data")

DoExp(s) ==
    LET o == s.o
        dom == Domain(s.rows, s.dom)
        rows == Used(s.rows, dom, s.binary, s.E)
    IN Clause(o.out = "ok", "C22", "the experiment failed")
       \cup IF o.out # "ok" THEN {} ELSE
            Common(s, o)
            \cup IF s.scheme = "cv"
                 THEN Clause(\A i \in DOMAIN o.keys : Rng(o.keys[i]) = FoldNames(s.K, s.only), "C22", "folds in the output")
                      \cup UNION {LET f == o.folds[i] IN
                              Clause(MaskOk(rows, f.mask), "C22", "mask")
                              \cup IF ~MaskOk(rows, f.mask) THEN {} ELSE
                                   Clause(Fifth(rows, f.mask), "C22", "size of test sets")
                                   \cup Aligned(s, f, Pick(rows, f.mask), "fold")
                                   \cup Fitted(s, f, "fold") \cup Times(f, "fold") : i \in DOMAIN o.folds}
                 ELSE Clause(Len(o.folds) = 1, "C22", "folds in the output")
                      \cup UNION {Aligned(s, o.folds[i], Used(s.test, dom, s.binary, s.E), "hold-out")
                                  \cup Fitted(s, o.folds[i], "hold-out") \cup Times(o.folds[i], "hold-out") : i \in DOMAIN o.folds}

----------------------------------------------------------------------------
\* C23: a history of runs and merges.  A result is a sequence of [f, same, all]: the name of a
\* fold, what must not depend on how it was run, and everything recorded
Names(r) == {r[i].f : i \in DOMAIN r}
Of(r, f) == r[CHOOSE i \in DOMAIN r : r[i].f = f]
AsMap(r) == [f \in Names(r) |-> Of(r, f).all]
DoFolds(s) ==
    LET full == s.full
        Run(x) == Clause(x.out = "ok", "C23", "run of a single fold failed")
                  \cup IF x.out # "ok" THEN {} ELSE
                       Clause(Names(x.r) = {x.f} /\ Len(x.r) = 1, "C23", "run of a single fold: folds in the output")
                       \cup Clause(x.f \in Names(full) /\ \A i \in DOMAIN x.r : x.r[i].f = x.f => x.r[i].same = Of(full, x.f).same,
                                   "C23", "run of a single fold differs from the run of all folds")
                       \cup Clause(x.head = s.head, "C23", "run of a single fold: recorded conditions")
        Src(x) == [i \in DOMAIN x.of |-> s.steps[x.of[i]]]
        Merge(x) == LET q == Src(x)
                        m == MergeSeq([i \in DOMAIN q |-> AsMap(q[i].r)])
                    IN IF \E i \in DOMAIN q : q[i].out # "ok" THEN {} ELSE
                       Clause(x.out = "ok", "C23", "merge failed")
                       \cup IF x.out # "ok" THEN {} ELSE
                            Clause(Names(x.r) = DOMAIN m, "C23", "merge: folds in the output")
                            \cup (IF Names(x.r) # DOMAIN m THEN {} ELSE
                                 Clause(AsMap(x.r) = m, "C23", "merge changes the results of a fold")
                                 \cup Clause(\A f \in Names(x.r) : Of(x.r, f).same = Of(full, f).same, "C23",
                                             "merged folds differ from the run of all folds"))
                            \cup Clause(x.head = s.head, "C23", "merge: recorded conditions")
                            \cup Clause({<<x.envs[i][1], x.envs[i][2]>> : i \in DOMAIN x.envs} = {<<q[i].f, q[i].env>> : i \in DOMAIN q},
                                        "C23", "merge: environments of the folds")
    IN Clause(s.fullout = "ok", "C23", "run of all folds failed")
       \cup Clause(\A i \in DOMAIN s.refused : s.refused[i] # "ok", "C23", "fold number outside the number of folds")
       \cup IF s.fullout # "ok" THEN {} ELSE
            UNION {IF s.steps[i].kind = "run" THEN Run(s.steps[i]) ELSE Merge(s.steps[i]) : i \in DOMAIN s.steps}

----------------------------------------------------------------------------
\* C24
SumTo(h) == LET F[i \in 0..Len(h)] == IF i = 0 THEN 0 ELSE F[i - 1] + h[i] IN F[Len(h)]
HistOk(x, dom, h) ==
    LET near == [i \in DOMAIN x |-> Scor!Nearest(dom[1], dom[2], dom[3], x[i])] IN
    /\ Len(h) = dom[3]
    /\ SumTo(h) = Len(x)
    /\ \A j \in 1..dom[3] : /\ Cardinality({i \in DOMAIN x : near[i] = {j - 1}}) <= h[j]
                            /\ Cardinality({i \in DOMAIN x : (j - 1) \in near[i]}) >= h[j]
DoStats(s) ==
    LET t == Pool([i \in DOMAIN s.folds |-> s.folds[i].t])
        p == Pool([i \in DOMAIN s.folds |-> s.folds[i].p])
        v == [t |-> t, p |-> p, E |-> s.E, rep |-> 1, prec |-> s.prec,
              t01 |-> [i \in DOMAIN t |-> IF t[i] = 0 THEN 0 ELSE 1]]
        o == s.o
    IN Obs(v, o, "C24")
       \cup IF o.out # "ok" THEN {} ELSE
            (IF s.dom = <<>> THEN {} ELSE
                Clause(o.levels = [j \in 1..s.dom[3] |-> s.dom[1] + (j - 1) * s.dom[2]], "C24", "score levels")
                \cup Clause(HistOk(t, s.dom, o.hist[1]), "C24", "histogram of true scores")
                \cup Clause(HistOk(p, s.dom, o.hist[2]), "C24", "histogram of predicted scores"))
            \cup Clause(Rng(s.before) = Rng(o.after), "C24", "other recorded information")
            \cup Clause(o.haspred = s.keep /\ (s.keep => o.pred = s.pred), "C24", "predictions kept or dropped as requested")
            \cup (IF s.again = <<>> THEN {} ELSE
                  Clause(s.again[1].out = "ok" /\ s.again[1].second = s.again[1].first /\ Rng(s.again[1].after) = Rng(s.before),
                         "C24", "statistics computed again"))

DoJson(s) == Clause(s.out = "ok", "C24", "conversion failed")
             \cup IF s.out # "ok" THEN {} ELSE
                  Clause(Same(Plain(s.x), s.y), "C24", "converted value")
                  \cup Clause(s.dumps, "C24", "result is not serializable")
                  \cup Clause(~s.dumps \/ Same(Plain(s.x), s.z), "C24", "value read from the output")

Verdicts(s) == CASE s.op = "exp" -> DoExp(s)
                 [] s.op = "folds" -> DoFolds(s)
                 [] s.op = "stats" -> DoStats(s)
                 [] s.op = "json" -> DoJson(s)

Init == c \in 1..Len(Cases) /\ k = 0
Step == /\ k = 0
        /\ LET bad == Verdicts(Cases[c]) IN
           bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> 1, op |-> Cases[c].op, bad |-> bad]))
        /\ k' = 1 /\ UNCHANGED c
Done == k = 1 /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
