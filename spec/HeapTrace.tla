----------------------------- MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Checks histories recorded from the implementation against the           *)
(* specification of containers and recommenders.                           *)
(*                                                                         *)
(* A case is a sequence of steps.  The state h maps the name of every live *)
(* object to its last observed representation; `learned' is the table of   *)
(* what fits have produced so far.  Every step states what the operation   *)
(* must do to the value of its target (module Events) and, by the frame    *)
(* condition, that no other live object changes.  A step that breaks a     *)
(* clause is reported, and the state continues from what was observed.     *)
(***************************************************************************)
EXTENDS Rep, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_IN)

VARIABLES c, k, h, learned
vars == <<c, k, h, learned>>

----------------------------------------------------------------------------
Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}
Live == DOMAIN h
UpdIds(s) == {s.upd[i][1] : i \in DOMAIN s.upd}
NewObs(s, id) == s.upd[CHOOSE i \in DOMAIN s.upd : s.upd[i][1] = id][2]
Obs(s, id) == IF id \in UpdIds(s) THEN NewObs(s, id) ELSE h[id]
Ok(s) == s.out = "ok"
\* objects an operation has no business with; what is changed names the broken promise as well
Frame(s, allowed, tag) ==
    LET bad == {id \in UpdIds(s) \ allowed : id \in DOMAIN h}
        Diff(kind, f, name) ==
            Clause(\A id \in bad : h[id].k = kind /\ NewObs(s, id).k = kind => \A x \in f : h[id][x] = NewObs(s, id)[x],
                   name, "frame")
    IN Clause(UpdIds(s) \subseteq allowed, tag, "frame")
       \cup Diff("c", {"eid", "iid", "ev", "sc", "ef", "nobj", "nev"}, "C01") \cup Diff("c", {"ft"}, "C04")
       \cup Diff("c", {"dom", "lv"}, "C05") \cup Diff("r", {"eid", "iid"}, "C02") \cup Diff("r", {"z", "par", "fr"}, "C07,C09")
ArgsOk(s, tag) == Clause(s.argsok, tag, "arguments")
Unchanged(s, tag) == Frame(s, {}, tag)

Near(a, b, tol) == a - b <= tol /\ b - a <= tol

----------------------------------------------------------------------------
(* containers *)

\* the parts of a value, compared one by one to name what is wrong
ValueClauses(o, v, tagEv, tagFt, tagDom) ==
    IF ~Readable(o) THEN {<<tagEv, "unreadable">>}
    ELSE LET w == Value(o) IN
         Clause(w.cls = v.cls /\ w.nt = v.nt /\ w.cols = v.cols /\ w.loaded = v.loaded, tagEv, "shape")
    \cup Clause(w.ev = v.ev, tagEv, "events")
    \cup Clause(w.ef = v.ef, tagEv, "event features")
    \cup Clause(w.sc = v.sc, tagEv, "scores")
    \cup Clause(w.dom = v.dom, tagDom, "score domain")
    \cup Clause(w.ft = v.ft, tagFt, "features")

FaithClauses(o, tag, tagFt) ==
    IF o.loaded
    THEN Clause(Faithful(o), tag, "unfaithful representation")
         \cup Clause(FtSizes(o), tagFt, "feature rows")
    ELSE Clause(o.wf /\ o.nev = 0 /\ o.sev = Len(o.cols), tag, "malformed")

LvClause(o, tag) ==
    IF o.dom = <<>> \/ o.dom[3] <= 0 THEN {}
    ELSE IF (o.dom[2] - o.dom[1]) % o.dom[3] # 0 THEN {}
    ELSE Clause(o.lv = (o.dom[2] - o.dom[1]) \div o.dom[3] + 1, tag, "number of levels")

\* a domain estimated from scores: smallest gap between different scores
EstDom(sc) ==
    LET S == Rng(sc)
        mn == CHOOSE x \in S : \A y \in S : x <= y
        mx == CHOOSE x \in S : \A y \in S : x >= y
        gaps == {x - y : <<x, y>> \in {p \in S \X S : p[1] > p[2]}}
    IN <<mn, mx, CHOOSE g \in gaps : \A g2 \in gaps : g <= g2>>

DoNew(s) ==
    LET legal == s.nt >= 1 /\ LegalCols(s.nt, s.cols) IN
    IF ~legal
    THEN Clause(s.out = "exc:ValueError", "C01", "illegal column types accepted") \cup Unchanged(s, "C06")
    ELSE Clause(Ok(s), "C01", "creation failed")
         \cup Frame(s, {s.id}, "C06")
         \cup ArgsOk(s, "C06")
         \cup (IF Ok(s) THEN ValueClauses(Obs(s, s.id), Fresh(s.cls, s.nt, s.cols), "C01", "C04", "C05")
                             \cup FaithClauses(Obs(s, s.id), "C01", "C04")
               ELSE {})

DoSetEvent(s) ==
    LET v == Value(h[s.t])
        sc == IF v.cls = "score" THEN Some(s.sc) ELSE None
        dom == IF v.cls = "event" THEN <<>>
               ELSE IF s.dom.has THEN s.dom.v ELSE EstDom(s.sc)
    IN Clause(Ok(s), "C01", "loading failed")
       \cup Frame(s, {s.t}, "C06")
       \cup ArgsOk(s, "C06")
       \cup (IF Ok(s)
             THEN LET o == Obs(s, s.t) IN
                  ValueClauses(o, Load(v, s.ev, s.ef, sc, dom), "C01", "C04", "C01,C05")
                  \cup FaithClauses(o, "C01", "C04")
                  \cup LvClause(o, "C05")
             ELSE {})

DoSetFeature(s) ==
    LET v == Value(h[s.t]) IN
    IF CanSetFt(v, s.typ, s.tbl)
    THEN Clause(Ok(s), "C04", "setting features failed")
         \cup Frame(s, {s.t}, "C06")
         \cup ArgsOk(s, "C06")
         \cup (IF Ok(s)
               THEN ValueClauses(Obs(s, s.t), SetFt(v, s.typ, s.tbl), "C04,C06", "C04", "C04")
                    \cup FaithClauses(Obs(s, s.t), "C04", "C04")
               ELSE {})
    ELSE Clause(~Ok(s), "C04", "incomplete feature table accepted")
         \cup Unchanged(s, "C04,C06")

RowsOf(s, n) == IF s.kind = "mask" THEN MaskSel(s.v) ELSE IdxSel(s.v, n)

DoFilter(s) ==
    LET v == Value(h[s.t]) IN
    IF ~v.loaded
    THEN Clause(s.out = "none", "C03", "filter without events") \cup Unchanged(s, "C03,C06")
    ELSE Clause(Ok(s), "C03", "filtering failed")
         \cup Frame(s, {s.id}, "C03,C06")
         \cup ArgsOk(s, "C06,C03")
         \cup (IF Ok(s)
               THEN LET o == Obs(s, s.id) IN
                    ValueClauses(o, Sel(v, RowsOf(s, Len(v.ev))), "C03", "C04,C03", "C03")
                    \cup FaithClauses(o, "C03", "C04,C03")
                    \cup Clause(o.lv = h[s.t].lv, "C03,C05", "number of levels")
               ELSE {})

DoBinarize(s) ==
    LET v == Value(h[s.t])
        thr == IF s.thr.has THEN s.thr.v[1] ELSE (v.dom[1] + v.dom[2]) \div 2   \* floor: same for integers
    IN Clause(Ok(s), "C05", "binarization failed")
       \cup Frame(s, {s.t}, "C06")
       \cup (IF Ok(s)
             THEN LET o == Obs(s, s.t) IN
                  ValueClauses(o, Binar(v, thr, s.unit), "C05", "C05", "C05")
                  \cup Clause(o.lv = 2, "C05", "number of levels")
             ELSE {})

----------------------------------------------------------------------------
(* conversions, on containers and recommenders *)
DoToIid(s) ==
    LET o == h[s.t]
        i == Iid(o, s.typ + 1, s.tok)
    IN Unchanged(s, "C02,C06")
       \cup (IF s.tok \in Rng(o.eid[s.typ + 1])
             THEN Clause(Ok(s) /\ s.res >= 0 /\ s.res < Len(o.eid[s.typ + 1])
                         /\ o.eid[s.typ + 1][s.res + 1] = s.tok, "C02", "to_iid")
             ELSE Clause(s.out = "exc:ValueError", "C02", "to_iid of an unknown id"))

DoToEid(s) ==
    LET o == h[s.t] IN
    Unchanged(s, "C02,C06")
    \cup (IF s.iid >= 0 /\ s.iid < Len(o.eid[s.typ + 1])
          THEN Clause(Ok(s) /\ s.res = o.eid[s.typ + 1][s.iid + 1]
                      /\ Iid(o, s.typ + 1, s.res) = s.iid, "C02", "to_eid")
          ELSE Clause(s.out = "exc:ValueError", "C02", "to_eid of an illegal id"))

DoToIidEvent(s) ==
    LET o == h[s.t]
        Miss(j) == IF s.miss = <<>> THEN Len(o.eid[o.cols[j] + 1])
                   ELSE IF Len(s.miss) = 1 THEN s.miss[1] ELSE s.miss[j]
        Conv(x, j) == LET i == Iid(o, o.cols[j] + 1, x) IN IF i = -1 THEN Miss(j) ELSE i
    IN Unchanged(s, "C02,C06") \cup ArgsOk(s, "C02,C06")
       \cup (IF s.badshape THEN Clause(s.out = "exc:TypeError", "C02", "to_iid_event of a wrong shape")
             ELSE Clause(Ok(s) /\ s.res = [r \in DOMAIN s.rows |->
                            [j \in DOMAIN o.cols |-> Conv(s.rows[r][j], j)]], "C02", "to_iid_event"))

DoToEidEvent(s) ==
    LET o == h[s.t] IN
    Unchanged(s, "C02,C06") \cup ArgsOk(s, "C02,C06")
    \cup (IF s.badshape THEN Clause(s.out = "exc:TypeError", "C02", "to_eid_event of a wrong shape")
          ELSE Clause(Ok(s) /\ s.res = [r \in DOMAIN s.rows |->
                         [j \in DOMAIN o.cols |-> o.eid[o.cols[j] + 1][s.rows[r][j] + 1]]], "C02", "to_eid_event"))

----------------------------------------------------------------------------
(* recommenders *)
ScorePred(cls) == cls \in {"PMF", "MultinomialPLSA"}
Binary(v, u) == /\ v.dom = <<0, u, u>>
                /\ Rng(v.sc.v) = {0, u}

\* what fitting has to answer
Verdict(cls, o, u) ==
    IF o.k # "c" THEN "TypeError"
    ELSE IF cls = "ImplicitLogisticPMF" THEN "ok"
    ELSE IF o.cls # "score" THEN "TypeError"
    ELSE IF cls = "LogisticPMF" /\ ~(Binary(Value(o), u) /\ o.lv = 2) THEN "ValueError"
    ELSE "ok"

\* the part of the training data a model may depend on
View(cls, o, eix) ==
    LET v == Value(o)
        cu == eix[1] + 1
        ci == eix[2] + 1
        us == Objs(v, v.cols[cu])
        is == Objs(v, v.cols[ci])
    IN IF cls = "ImplicitLogisticPMF"
       THEN <<us, is, {<<v.ev[r][cu], v.ev[r][ci]>> : r \in DOMAIN v.ev}>>
       ELSE <<us, is, [r \in DOMAIN v.ev |-> <<v.ev[r][cu], v.ev[r][ci], v.sc.v[r]>>], v.dom>>

GridNear(g, f, tol) ==
    /\ Len(g) = Len(f)
    /\ \A i \in DOMAIN g : Len(g[i]) = Len(f[i]) /\ \A j \in DOMAIN g[i] : Near(g[i][j], f[i][j], tol)

\* the grid of predictions of a recommender: rows users, columns items, the
\* last row and column an unknown object
GU(o, x) == IF x \in Rng(o.us) THEN CHOOSE i \in DOMAIN o.us : o.us[i] = x ELSE Len(o.us) + 1
GI(o, x) == IF x \in Rng(o.is) THEN CHOOSE i \in DOMAIN o.is : o.is[i] = x ELSE Len(o.is) + 1

Dot(p, q) == LET F[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE F[i - 1] + p[i] * q[i] IN F[Len(p)]

\* small integer parameters were injected: predictions are exact integers
InjClauses(o) ==
    LET Cl(x) == IF x > o.cap THEN o.cap ELSE IF x < -o.cap THEN -o.cap ELSE x
        tu == o.cols[o.eix[1] + 1] + 1
        ti == o.cols[o.eix[2] + 1] + 1
        P == o.par
        E(i, j) ==
          LET ku == i <= Len(o.us)
              ki == j <= Len(o.is)
              u == IF ku THEN Iid(o, tu, o.us[i]) + 1 ELSE 1
              y == IF ki THEN Iid(o, ti, o.is[j]) + 1 ELSE 1
          IN P.mu + (IF ku THEN P.bu[u] ELSE 0) + (IF ki THEN P.bi[y] ELSE 0)
             + (IF ku /\ ki THEN Dot(P.p[u], P.q[y]) ELSE 0)
    IN  Clause(\A i \in 1..Len(o.us) : \A j \in 1..Len(o.is) : Near(o.z[i][j], Cl(o.unit * E(i, j)), 2),
               "C07", "prediction of known objects")
    \cup Clause(\A i \in 1..Len(o.us) + 1 : \A j \in 1..Len(o.is) + 1 :
                  (i > Len(o.us) \/ j > Len(o.is)) => Near(o.z[i][j], Cl(o.unit * E(i, j)), 2),
               "C08", "prediction of unknown objects")

\* optimized parameters: unknown objects keep only the remaining biases
NeutralClauses(o) ==
    LET tu == o.cols[o.eix[1] + 1] + 1
        ti == o.cols[o.eix[2] + 1] + 1
        P == o.par
        nu == Len(o.us) + 1
        ni == Len(o.is) + 1
        Cl(x) == IF x > o.cap THEN o.cap ELSE IF x < -o.cap THEN -o.cap ELSE x
    IN Clause(/\ Near(o.z[nu][ni], Cl(P.mu), 5)
              /\ \A i \in 1..Len(o.us) : Near(o.z[i][ni], Cl(P.mu + P.bu[Iid(o, tu, o.us[i]) + 1]), 5)
              /\ \A j \in 1..Len(o.is) : Near(o.z[nu][j], Cl(P.mu + P.bi[Iid(o, ti, o.is[j]) + 1]), 5),
              "C08", "unknown objects are not neutral")

\* the representation of a fitted recommender, given its training container
FitClauses(s, o, d) ==
    LET v == Value(d)
        cu == s.eix[1] + 1
        ci == s.eix[2] + 1
        us == Objs(v, v.cols[cu])
        is == Objs(v, v.cols[ci])
        nu == Cardinality(us)
        ni == Cardinality(is)
    IN  Clause(o.wf /\ o.fitted /\ o.nt = v.nt /\ o.cols = v.cols /\ o.sev = Len(v.cols)
               /\ o.eix = s.eix
               /\ \A t \in 1..v.nt : o.eid[t] = d.eid[t] /\ Rng(o.iid[t]) = Rng(d.iid[t]),
               "C02,C07,C09", "tables of ids of a fitted recommender")
    \cup Clause(o.grid, "C07,C08", "prediction fails")
    \cup Clause(Rng(o.us) = us /\ Rng(o.is) = is, "C07", "known objects")
    \cup Clause(o.dropped, "C09", "training data is kept")
    \cup Clause(o.fr.n_users = nu /\ o.fr.n_items = ni /\ o.fr.n_events = Len(v.ev), "C09", "sizes in fit results")
    \cup Clause(o.fr.n_parameters =
                  IF s.cls = "MultinomialPLSA" THEN s.nf * (1 + nu + ni + d.lv)
                  ELSE 1 + (nu + ni) * (s.nf + 1), "C09", "number of parameters in fit results")
    \cup Clause(o.fr.finite, "C09", "losses are not finite")
    \cup (IF s.inj THEN Clause(o.fr.report = s.report, "C09", "report of the optimizer") ELSE {})
    \cup Clause(o.hyper = s.hyper, "C09", "hyper-parameters changed")
    \cup (IF o.grid /\ o.wf /\ o.fitted
          THEN IF s.inj THEN InjClauses(o)
               ELSE IF s.cls # "MultinomialPLSA" THEN NeutralClauses(o) ELSE {}
          ELSE {})

\* a refused or successful fit; entry of the table of fits
FitKey(s, d) == <<s.cls, s.hyper, s.seed, View(s.cls, d, s.eix)>>

DoFit(s) ==
    LET d == h[s.data]
        want == Verdict(s.cls, d, s.unit)
    IN IF want # "ok"
       THEN Clause(s.out = "exc:" \o want, "C09,C11", "unsuitable data")
            \cup Unchanged(s, "C09,C06")
       ELSE Clause(Ok(s), "C07,C09,C11,C12", "fitting failed")
            \cup Frame(s, {s.t}, "C06,C09")
            \cup ArgsOk(s, "C06")
            \cup (IF Ok(s)
                  THEN LET o == Obs(s, s.t)
                           key == FitKey(s, d)
                       IN FitClauses(s, o, d)
                          \cup (IF key \in DOMAIN learned /\ o.grid
                                THEN Clause(LET f == learned[key] IN
                                              \A i \in DOMAIN o.us : \A j \in DOMAIN o.is :
                                                Near(o.z[i][j], f.z[GU(f, o.us[i])][GI(f, o.is[j])], 3),
                                            "C09,C07,C12", "fit is not a function of its input")
                                     \cup Clause(o.fr.report = learned[key].report, "C09", "report is not a function of the input")
                                ELSE {})
                  ELSE {})

DoPredict(s) ==
    LET o == h[s.t]
        cu == o.eix[1] + 1
        ci == o.eix[2] + 1
        E(r) == o.z[GU(o, s.rows[r][cu])][GI(o, s.rows[r][ci])]
        unk(r) == GU(o, s.rows[r][cu]) > Len(o.us) \/ GI(o, s.rows[r][ci]) > Len(o.is)
        anyunk == \E r \in DOMAIN s.rows : unk(r)
    IN Unchanged(s, "C06") \cup ArgsOk(s, "C06")
       \cup Clause(Ok(s), IF anyunk THEN "C08,C07" ELSE "C07", "prediction failed")
       \cup (IF Ok(s) /\ o.grid
             THEN Clause(Len(s.res) = Len(s.rows), "C07,C08", "one prediction per event")
                  \cup (IF Len(s.res) = Len(s.rows)
                        THEN Clause(\A r \in DOMAIN s.rows : unk(r) \/ Near(s.res[r], E(r), 3), "C07", "prediction in a batch")
                             \cup Clause(\A r \in DOMAIN s.rows : ~unk(r) \/ Near(s.res[r], E(r), 3), "C08", "unknown object in a batch")
                        ELSE {})
             ELSE {})

\* operations of the caller on its own arrays, and read-only operations
DoNothing(s) == Unchanged(s, s.tags) \cup ArgsOk(s, s.tags)
                \cup (IF s.must THEN Clause(Ok(s), s.tags, "operation failed") ELSE {})

DoRecNew(s) == Clause(Ok(s), "C09", "creation failed") \cup Frame(s, {s.id}, "C06") \cup ArgsOk(s, "C06")

\* something that is not a container at all
DoFitBad(s) == Clause(s.out = "exc:TypeError", "C09", "unsuitable data") \cup Unchanged(s, "C09,C06")

Verdicts(s) ==
    CASE s.op = "new" -> DoNew(s)
      [] s.op = "set_event" -> DoSetEvent(s)
      [] s.op = "set_feature" -> DoSetFeature(s)
      [] s.op = "filter" -> DoFilter(s)
      [] s.op = "binarize" -> DoBinarize(s)
      [] s.op = "to_iid" -> DoToIid(s)
      [] s.op = "to_eid" -> DoToEid(s)
      [] s.op = "to_iid_event" -> DoToIidEvent(s)
      [] s.op = "to_eid_event" -> DoToEidEvent(s)
      [] s.op = "rec_new" -> DoRecNew(s)
      [] s.op = "fit" -> DoFit(s)
      [] s.op = "fit_bad" -> DoFitBad(s)
      [] s.op = "predict" -> DoPredict(s)
      [] s.op = "nothing" -> DoNothing(s)

----------------------------------------------------------------------------
RECURSIVE Apply(_, _, _)
Apply(m, upd, i) == IF i > Len(upd) THEN m ELSE Apply((upd[i][1] :> upd[i][2]) @@ m, upd, i + 1)

Init == c \in 1..Len(Cases) /\ k = 0 /\ h = <<>> /\ learned = <<>>

Step ==
    /\ k < Len(Cases[c].steps)
    /\ LET s == Cases[c].steps[k + 1]
           bad == Verdicts(s)
       IN /\ bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> k + 1, op |-> s.op, bad |-> bad]))
          /\ k' = k + 1
          /\ h' = Apply(h, s.upd, 1)
          /\ learned' = IF s.op = "fit" /\ Ok(s) /\ Verdict(s.cls, h[s.data], s.unit) = "ok" /\ Obs(s, s.t).grid
                        THEN (FitKey(s, h[s.data]) :> [us |-> Obs(s, s.t).us, is |-> Obs(s, s.t).is, z |-> Obs(s, s.t).z,
                                                           report |-> Obs(s, s.t).fr.report]) @@ learned
                        ELSE learned
          /\ UNCHANGED c
Done == k = Len(Cases[c].steps) /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
