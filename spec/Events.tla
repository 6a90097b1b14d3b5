------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* What a data container MEANS, at the level of external ids.              *)
(*                                                                         *)
(* A container value is a record                                           *)
(*   cls    "event" or "score"                                             *)
(*   nt     number of object types; types are 0 .. nt-1                    *)
(*   cols   <<type of column 1, type of column 2, ...>>                    *)
(*   loaded whether events were set                                        *)
(*   ev     sequence of events, an event is a sequence of external ids     *)
(*   ef     [has, v] event features, one per event                         *)
(*   sc     [has, v] scores, one per event                                 *)
(*   dom    <<min, max, stride>> or <<>>                                   *)
(*   ft     for type t at position t+1: [has, m], m a set of               *)
(*          <<external id, feature row>>                                   *)
(* Nothing here mentions internal ids: those are a representation, and     *)
(* module Rep relates them to this.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [has |-> FALSE, v |-> <<>>]
Some(v) == [has |-> TRUE, v |-> v]
NoFt == [has |-> FALSE, m |-> {}]

Rng(q) == {q[i] : i \in DOMAIN q}
ColsOf(a, t) == {c \in DOMAIN a.cols : a.cols[c] = t}
\* the objects of type t
Objs(a, t) == UNION {{a.ev[r][c] : r \in DOMAIN a.ev} : c \in ColsOf(a, t)}

LegalCols(nt, cols) == cols # <<>> /\ \A c \in DOMAIN cols : cols[c] >= 0 /\ cols[c] < nt

Fresh(cls, nt, cols) ==
    [cls |-> cls, nt |-> nt, cols |-> cols, loaded |-> FALSE, ev |-> <<>>,
     ef |-> None, sc |-> None, dom |-> <<>>, ft |-> [t \in 1..nt |-> NoFt]]

\* loading replaces everything that depends on events
Load(a, ev, ef, sc, dom) ==
    [a EXCEPT !.loaded = TRUE, !.ev = ev, !.ef = ef, !.sc = sc, !.dom = dom,
              !.ft = [t \in 1..a.nt |-> NoFt]]

\* tbl is a sequence of <<external id, row>> with different ids
TblKeys(tbl) == {tbl[i][1] : i \in DOMAIN tbl}
CanSetFt(a, t, tbl) == a.loaded /\ Objs(a, t) \subseteq TblKeys(tbl)
SetFt(a, t, tbl) ==
    [a EXCEPT !.ft[t + 1] =
        [has |-> TRUE, m |-> {tbl[i] : i \in {j \in DOMAIN tbl : tbl[j][1] \in Objs(a, t)}}]]

\* the rows a condition selects, as positions 1..n in order
MaskSel(v) == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i])
IdxSel(v, n) == [i \in DOMAIN v |-> IF v[i] < 0 THEN n + v[i] + 1 ELSE v[i] + 1]

Pick(q, rows) == [i \in DOMAIN rows |-> q[rows[i]]]
PickO(o, rows) == IF o.has THEN Some(Pick(o.v, rows)) ELSE None

\* filtering: the selected rows; features follow their objects
Sel(a, rows) ==
    LET b == [a EXCEPT !.ev = Pick(a.ev, rows), !.ef = PickO(a.ef, rows),
                       !.sc = PickO(a.sc, rows)]
    IN [b EXCEPT !.ft = [t \in 1..a.nt |->
            IF a.ft[t].has
            THEN [has |-> TRUE, m |-> {x \in a.ft[t].m : x[1] \in Objs(b, t - 1)}]
            ELSE NoFt]]

\* binarization at a threshold: <= thr becomes 0 (scores in units of 1/u)
Binar(a, thr, u) ==
    [a EXCEPT !.sc = Some([i \in DOMAIN a.sc.v |-> IF a.sc.v[i] <= thr THEN 0 ELSE u]),
              !.dom = <<0, u, u>>]

\* well-formedness of a container value: the invariants of C01/C03/C04
OkValue(a) ==
    /\ LegalCols(a.nt, a.cols)
    /\ \A r \in DOMAIN a.ev : Len(a.ev[r]) = Len(a.cols)
    /\ a.ef.has => Len(a.ef.v) = Len(a.ev)
    /\ a.sc.has => Len(a.sc.v) = Len(a.ev)
    /\ \A t \in 1..a.nt : a.ft[t].has =>
          /\ {x[1] : x \in a.ft[t].m} = Objs(a, t - 1)
          /\ Cardinality(a.ft[t].m) = Cardinality(Objs(a, t - 1))
=============================================================================
