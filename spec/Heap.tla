-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Containers and recommenders as a state machine over shared memory.      *)
(*                                                                         *)
(* Two levels run side by side:                                            *)
(*   val, fitted   what every object MEANS (container values of module     *)
(*                 Events; the tables of ids a recommender has learned)    *)
(*   obj, rob, mem what the implementation keeps: objects hold references  *)
(*                 (addresses) of arrays in memory, among them arrays that *)
(*                 the caller passed and still holds (`given')             *)
(* Every operation changes `val' as module Events says, and the memory as  *)
(* the implementation does.  Refines states that the memory always         *)
(* represents the meaning: no operation on one object, and nothing the     *)
(* caller does with its arrays, shows in another object (C01, C03 - C06,   *)
(* C09).                                                                   *)
(*                                                                         *)
(* Flaws is a set of flaws of the implementation.  The model is checked    *)
(* with Flaws = {} (holds) and with several flaws (must be violated);      *)
(* pairs of flaws show defects that need two cooperating sites.            *)
(*                                                                         *)
(* hist is the behaviour so far, for replaying it through the code.        *)
(***************************************************************************)
EXTENDS Rep, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Conts,      \* names of containers
          Recs,       \* names of recommenders
          Depth,      \* number of operations
          Flaws,
          Ids,        \* external ids, integers
          Wide        \* TRUE: all small event matrices; FALSE: some

VARIABLES val, fitted, obj, rob, mem, given, hist, shape
vars == <<val, fitted, obj, rob, mem, given, hist, shape>>
View == <<val, fitted, obj, rob, mem, given, Len(hist), shape>>

Shapes == {[nt |-> 2, cols |-> <<0, 1>>], [nt |-> 1, cols |-> <<0, 0>>],
           [nt |-> 3, cols |-> <<2, 0>>], [nt |-> 2, cols |-> <<1, 1, 0>>]}

Tuples(n) == [1..n -> Ids]
Matrices(n) ==
    LET E == Tuples(n)
        a == [i \in 1..n |-> Min({i, 2})]
        b == [i \in 1..n |-> 2]
        d == [i \in 1..n |-> 3]
    IN IF Wide THEN UNION {[1..k -> E] : k \in 0..2}
       ELSE {<<>>, <<b>>, <<b, a>>, <<a, d, a>>, <<d, b>>, <<d, a, b>>}

ScoreOf(i) == ((2 * i) % 3) + 1
Dom == <<1, 3, 1>>
FeatOf(x, v) == 10 * x + v

\* ------------------------------------------------------------- memory
\* junk is what the caller writes into its arrays, in the shape they have
Junk(x) == IF Len(x) = 0 THEN x ELSE [i \in DOMAIN x |-> IF i = 1 THEN x[Len(x)] ELSE x[1]]
Addr == DOMAIN mem
Null == 0
Deref(a) == mem[a]

Sorted(S) == SetToSortSeq(S, <)
Number(x, q) == CHOOSE i \in 0..(Len(q) - 1) : q[i + 1] = x
TableOf(q) == [i \in DOMAIN q |-> <<q[i], i - 1>>]

\* the representation record of module Rep of a container
RepOf(n) ==
    LET o == obj[n] IN
    [wf |-> TRUE, cls |-> "score", nt |-> shape.nt, cols |-> shape.cols, loaded |-> o.ev # Null,
     nobj |-> [t \in 1..shape.nt |-> IF o.eid[t] = Null THEN 0 ELSE Len(mem[o.eid[t]])],
     eid |-> [t \in 1..shape.nt |-> IF o.eid[t] = Null THEN <<>> ELSE mem[o.eid[t]]],
     iid |-> [t \in 1..shape.nt |-> IF o.iid[t] = Null THEN <<>> ELSE mem[o.iid[t]]],
     ev |-> IF o.ev = Null THEN <<>> ELSE mem[o.ev],
     nev |-> IF o.ev = Null THEN 0 ELSE Len(mem[o.ev]), sev |-> Len(shape.cols),
     ef |-> IF o.ef = Null THEN None ELSE Some(mem[o.ef]),
     sc |-> IF o.sc = Null THEN None ELSE Some(mem[o.sc]),
     dom |-> o.dom,
     ft |-> [t \in 1..shape.nt |-> IF o.ft[t] = Null THEN None ELSE Some(mem[o.ft[t]])]]

Empty == [eid |-> [t \in 1..shape.nt |-> Null], iid |-> [t \in 1..shape.nt |-> Null], ev |-> Null,
          ef |-> Null, sc |-> Null, dom |-> <<>>, ft |-> [t \in 1..shape.nt |-> Null]]

\* allocation: the next address
Top == Cardinality(DOMAIN mem)

Log(s) == hist' = Append(hist, s)

\* --------------------------------------------------------- operations
Init ==
    /\ shape \in Shapes
    /\ val = [n \in Conts |-> Fresh("score", shape.nt, shape.cols)]
    /\ fitted = [r \in Recs |-> <<>>]
    /\ obj = [n \in Conts |-> Empty]
    /\ rob = [r \in Recs |-> <<>>]
    /\ mem = <<>>
    /\ given = {}
    /\ hist = <<>>

(* Loading.  The caller's arrays (events are copied by renumbering; scores *)
(* and event features are copied) come first, then the object's own.       *)
LoadInto(n, m, aSc, aEf, ev, hasEf) ==
    LET nt == shape.nt
        q == [t \in 1..nt |-> Sorted(Objs([ev |-> ev, cols |-> shape.cols], t - 1))]
        k == Len(m)
        old == obj[n]
        inPlace == "ids rewritten in place" \in Flaws /\ old.ev # Null
        aE == [t \in 1..nt |-> IF inPlace THEN old.eid[t] ELSE k + t]
        aI == [t \in 1..nt |-> IF inPlace THEN old.iid[t] ELSE k + nt + t]
        iev == [r \in DOMAIN ev |-> [c \in DOMAIN shape.cols |-> Number(ev[r][c], q[shape.cols[c] + 1])]]
        fresh == m \o q \o [t \in 1..nt |-> TableOf(q[t])] \o <<iev, m[aSc], m[aEf]>>
        m2 == IF inPlace
              THEN [a \in DOMAIN fresh |->
                      IF \E t \in 1..nt : a = aE[t] THEN q[CHOOSE t \in 1..nt : a = aE[t]]
                      ELSE IF \E t \in 1..nt : a = aI[t] THEN TableOf(q[CHOOSE t \in 1..nt : a = aI[t]])
                      ELSE fresh[a]]
              ELSE fresh
        keepFt == "features survive loading" \in Flaws
    IN /\ mem' = m2
       /\ obj' = [obj EXCEPT ![n] =
            [eid |-> aE, iid |-> aI, ev |-> k + 2 * nt + 1,
             sc |-> IF "scores of the caller kept" \in Flaws THEN aSc ELSE k + 2 * nt + 2,
             ef |-> IF ~hasEf THEN Null
                    ELSE IF "event features of the caller kept" \in Flaws THEN aEf ELSE k + 2 * nt + 3,
             dom |-> Dom,
             ft |-> IF keepFt THEN old.ft ELSE [t \in 1..nt |-> Null]]]

SetEvent(n, ev, hasEf) ==
    LET sc == [i \in DOMAIN ev |-> ScoreOf(i)]
        ef == [i \in DOMAIN ev |-> 100 + i]
        m == mem \o <<sc, ef>>
    IN /\ val' = [val EXCEPT ![n] = Load(@, ev, IF hasEf THEN Some(ef) ELSE None, Some(sc), Dom)]
       /\ LoadInto(n, m, Top + 1, Top + 2, ev, hasEf)
       /\ given' = given \cup {Top + 1, Top + 2}
       /\ UNCHANGED <<fitted, rob, shape>>
       /\ Log([op |-> "load", n |-> n, ev |-> ev, hasEf |-> hasEf])

(* Filtering: a new container of the selected events. *)
Filter(n, d, mask) ==
    LET rows == MaskSel(mask)
        v == val[n]
        w == Sel(v, rows)
        o == obj[n]
        R == RepOf(n)
        nt == shape.nt
        ev == [i \in DOMAIN rows |-> [c \in DOMAIN shape.cols |->
                  R.eid[shape.cols[c] + 1][R.ev[rows[i]][c] + 1]]]
        q == [t \in 1..nt |-> Sorted(Objs([ev |-> ev, cols |-> shape.cols], t - 1))]
        all == \A i \in DOMAIN mask : mask[i]
        keepIds == "numbers kept by filtering" \in Flaws
        shareIds == keepIds \/ ("ids shared if all are selected" \in Flaws /\ all)
        q2 == IF shareIds THEN R.eid ELSE q
        k == Top
        iev == [r \in DOMAIN ev |-> [c \in DOMAIN shape.cols |-> Number(ev[r][c], q2[shape.cols[c] + 1])]]
        ftRows(t) == IF o.ft[t] = Null THEN <<>>
                     ELSE [i \in DOMAIN q2[t] |-> mem[o.ft[t]][Number(q2[t][i], R.eid[t]) + 1]]
    IN /\ v.loaded
       /\ val' = [val EXCEPT ![d] = w]
       /\ mem' = mem \o q2 \o [t \in 1..nt |-> TableOf(q2[t])]
                     \o <<iev, Pick(R.sc.v, rows), IF R.ef.has THEN Pick(R.ef.v, rows) ELSE <<>> >>
                     \o [t \in 1..nt |-> ftRows(t)]
       /\ obj' = [obj EXCEPT ![d] =
            [eid |-> IF shareIds THEN o.eid ELSE [t \in 1..nt |-> k + t],
             iid |-> IF shareIds THEN o.iid ELSE [t \in 1..nt |-> k + nt + t],
             ev |-> k + 2 * nt + 1,
             sc |-> IF all /\ "scores shared if all are selected" \in Flaws THEN o.sc ELSE k + 2 * nt + 2,
             ef |-> IF R.ef.has THEN k + 2 * nt + 3 ELSE Null,
             dom |-> o.dom,
             ft |-> [t \in 1..nt |-> IF o.ft[t] = Null THEN Null
                                     ELSE IF "feature rows not selected" \in Flaws THEN o.ft[t]
                                     ELSE k + 2 * nt + 3 + t]]]
       /\ UNCHANGED <<fitted, rob, given, shape>>
       /\ Log([op |-> "filter", n |-> n, d |-> d, mask |-> mask])

(* Features of all objects of type t, given in a table of the caller. *)
SetFeature(n, t, ids, v) ==
    LET tbl == [i \in DOMAIN ids |-> <<ids[i], FeatOf(ids[i], v)>>]
        R == RepOf(n)
        rows == [i \in DOMAIN tbl |-> tbl[i][2]]
        can == CanSetFt(val[n], t, tbl)
        inOrder == ids = R.eid[t + 1]
        mine == [i \in DOMAIN R.eid[t + 1] |-> rows[CHOOSE j \in DOMAIN ids : ids[j] = R.eid[t + 1][i]]]
    IN /\ val[n].loaded
       /\ IF can
          THEN /\ val' = [val EXCEPT ![n] = SetFt(@, t, tbl)]
               /\ mem' = mem \o <<rows, mine>>
               /\ obj' = [obj EXCEPT ![n].ft[t + 1] =
                     IF "table of the caller kept if in order" \in Flaws /\ inOrder THEN Top + 1 ELSE Top + 2]
               /\ given' = given \cup {Top + 1}
          ELSE UNCHANGED <<val, obj, mem, given>>
       /\ UNCHANGED <<fitted, rob, shape>>
       /\ Log([op |-> "feature", n |-> n, t |-> t, ids |-> ids, v |-> v])

Binarize(n, thr) ==
    LET o == obj[n]
        new == [i \in DOMAIN mem[o.sc] |-> IF mem[o.sc][i] <= thr THEN 0 ELSE 1]
    IN /\ val[n].loaded
       /\ val' = [val EXCEPT ![n] = Binar(@, thr, 1)]
       /\ IF "binarized in place" \in Flaws
          THEN /\ mem' = [mem EXCEPT ![o.sc] = new]
               /\ obj' = [obj EXCEPT ![n].dom = <<0, 1, 1>>]
          ELSE /\ mem' = Append(mem, new)
               /\ obj' = [obj EXCEPT ![n].sc = Top + 1, ![n].dom = <<0, 1, 1>>]
       /\ UNCHANGED <<fitted, rob, given, shape>>
       /\ Log([op |-> "binarize", n |-> n, thr |-> thr])

(* Fitting keeps the tables of ids, by reference. *)
Fit(r, n, eix) ==
    /\ val[n].loaded /\ val[n].ev # <<>>
    /\ fitted' = [fitted EXCEPT ![r] = [t \in 1..shape.nt |-> Objs(val[n], t - 1)]]
    /\ rob' = [rob EXCEPT ![r] = [eid |-> obj[n].eid, iid |-> obj[n].iid]]
    /\ UNCHANGED <<val, obj, mem, given, shape>>
    /\ Log([op |-> "fit", r |-> r, n |-> n, eix |-> eix])

Predict(r) ==
    /\ rob[r] # <<>>
    /\ UNCHANGED <<val, fitted, obj, rob, mem, given, shape>>
    /\ Log([op |-> "predict", r |-> r])

\* the caller reuses its arrays
Clobber ==
    /\ given # {}
    /\ mem' = [a \in DOMAIN mem |-> IF a \in given THEN Junk(mem[a]) ELSE mem[a]]
    /\ given' = {}
    /\ UNCHANGED <<val, fitted, obj, rob, shape>>
    /\ Log([op |-> "clobber"])

----------------------------------------------------------------------------
Masks(k) == IF Wide THEN [1..k -> BOOLEAN]
            ELSE {[i \in 1..k |-> TRUE], [i \in 1..k |-> FALSE], [i \in 1..k |-> i > 1], [i \in 1..k |-> i = 1]}
IdLists == {Sorted(Ids), Reverse(Sorted(Ids)), SelectSeq(Sorted(Ids), LAMBDA x : x > 1)}

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E n \in Conts, ev \in Matrices(Len(shape.cols)), e \in BOOLEAN :
             (e => Len(ev) = 2) /\ SetEvent(n, ev, e)
       \/ \E n \in Conts, d \in Conts : n # d /\ val[n].loaded /\ \E m \in Masks(Len(val[n].ev)) : Filter(n, d, m)
       \/ \E n \in Conts, t \in 0..shape.nt - 1 : val[n].loaded /\
             \E ids \in IdLists \cup {RepOf(n).eid[t + 1]}, v \in {1} : SetFeature(n, t, ids, v)
       \/ \E n \in Conts, thr \in {1, 2} : Binarize(n, thr)
       \/ \E r \in Recs, n \in Conts, eix \in {<<0, 1>>, <<1, 0>>} : Fit(r, n, eix)
       \/ \E r \in Recs : Predict(r)
       \/ Clobber

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Refines ==
    \A n \in Conts :
        LET o == RepOf(n) IN
        /\ val[n].loaded = o.loaded
        /\ o.loaded => Readable(o) /\ Faithful(o) /\ FtSizes(o) /\ Value(o) = val[n]
Learned ==
    \A r \in Recs : rob[r] # <<>> =>
        \A t \in 1..shape.nt :
            LET q == mem[rob[r].eid[t]]
            IN Rng(q) = fitted[r][t] /\ Rng(TableOf(q)) = Rng(mem[rob[r].iid[t]])
Meaningful == \A n \in Conts : OkValue(val[n])
\* an operation changes the meaning of the object it is applied to only
FrameProp == [][Cardinality({n \in Conts : val'[n] # val[n]}) <= 1]_vars
\* filtering twice is filtering by the intersection; filtering commutes with loading's meaning
FilterLaw ==
    \A n \in Conts : val[n].loaded =>
        \A m1 \in Masks(Len(val[n].ev)) :
            LET a == Sel(val[n], MaskSel(m1)) IN
            /\ OkValue(a)
            /\ \A m2 \in Masks(Len(a.ev)) :
                 Sel(a, MaskSel(m2)) = Sel(val[n], Pick(MaskSel(m1), MaskSel(m2)))

----------------------------------------------------------------------------
(* complete behaviours, for replaying *)
LoadFirst == hist # <<>> => hist[1].op = "load" /\ hist[1].n = "a" /\ Len(hist[1].ev) \in {1, 2, 3}
Emit == /\ Len(hist) = Depth
        /\ PrintT("HIST|" \o ToJson([shape |-> shape, ops |-> hist]))
        /\ UNCHANGED vars
GenSpec == Init /\ [][Next \/ Emit]_vars
=============================================================================
