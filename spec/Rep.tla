--------------------------------- MODULE Rep --------------------------------
(***************************************************************************)
(* The representation of a container by internal ids, and the container    *)
(* value (module Events) that it represents.  A representation is what the *)
(* implementation exposes:                                                 *)
(*   nobj   number of objects per type                                     *)
(*   eid    per type, the sequence of external ids in order of internal id *)
(*   iid    per type, sequence of <<external id, internal id>> (the map)   *)
(*   ev     events as sequences of internal ids;  nev, sev their numbers   *)
(*   ft     per type [has, v], v the feature rows in order of internal id  *)
(* Which internal id an object has is left open on purpose.                *)
(***************************************************************************)
EXTENDS Events

\* one-to-one correspondence of ids of type t (position t in the sequences)
BijType(o, t) ==
    /\ o.nobj[t] = Len(o.eid[t])
    /\ Cardinality(Rng(o.eid[t])) = Len(o.eid[t])
    /\ Len(o.iid[t]) = Len(o.eid[t])
    /\ \A i \in DOMAIN o.iid[t] :
          LET p == o.iid[t][i] IN
          p[2] >= 0 /\ p[2] < Len(o.eid[t]) /\ o.eid[t][p[2] + 1] = p[1]
    /\ Cardinality(Rng(o.iid[t])) = Len(o.eid[t])

InRange(o) == \A r \in DOMAIN o.ev : /\ Len(o.ev[r]) = Len(o.cols)
                                     /\ \A c \in DOMAIN o.cols :
                                          o.ev[r][c] >= 0 /\ o.ev[r][c] < Len(o.eid[o.cols[c] + 1])

\* every numbered object occurs in some event
Used(o, t) == UNION {{o.ev[r][c] : r \in DOMAIN o.ev} : c \in {c \in DOMAIN o.cols : o.cols[c] = t - 1}}
NoGaps(o, t) == Used(o, t) = 0..(Len(o.eid[t]) - 1)

Sizes(o) == /\ o.nev = Len(o.ev)
            /\ o.sev = Len(o.cols)
            /\ o.ef.has => Len(o.ef.v) = Len(o.ev)
            /\ o.sc.has => Len(o.sc.v) = Len(o.ev)
FtSizes(o) == \A t \in 1..o.nt : o.ft[t].has => Len(o.ft[t].v) = Len(o.eid[t])

\* the representation is faithful
Faithful(o) == /\ o.wf
               /\ Len(o.eid) = o.nt /\ Len(o.iid) = o.nt /\ Len(o.nobj) = o.nt
               /\ Len(o.ft) = o.nt
               /\ \A t \in 1..o.nt : BijType(o, t)
               /\ InRange(o)
               /\ \A t \in 1..o.nt : NoGaps(o, t)
               /\ Sizes(o)
\* weak enough to apply Value without running out of ranges
Readable(o) == /\ o.wf /\ Len(o.eid) = o.nt /\ Len(o.ft) = o.nt
               /\ \A c \in DOMAIN o.cols : o.cols[c] >= 0 /\ o.cols[c] < o.nt
               /\ InRange(o)
               /\ FtSizes(o)

Value(o) ==
    [cls |-> o.cls, nt |-> o.nt, cols |-> o.cols, loaded |-> o.loaded,
     ev |-> [r \in DOMAIN o.ev |-> [c \in DOMAIN o.cols |-> o.eid[o.cols[c] + 1][o.ev[r][c] + 1]]],
     ef |-> o.ef, sc |-> o.sc, dom |-> o.dom,
     ft |-> [t \in 1..o.nt |-> IF o.ft[t].has
                THEN [has |-> TRUE, m |-> {<<o.eid[t][i], o.ft[t].v[i]>> : i \in DOMAIN o.eid[t]}]
                ELSE NoFt]]

\* internal id of an external id by the exposed map, or -1
Iid(o, t, x) == LET S == {i \in DOMAIN o.iid[t] : o.iid[t][i][1] = x}
                IN IF S = {} THEN -1 ELSE o.iid[t][CHOOSE i \in S : TRUE][2]
=============================================================================
