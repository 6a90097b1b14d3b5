------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Decides recorded observations of large collections of events.  A step   *)
(* observes one object (a container, a filtered one, a fitted recommender) *)
(* at sampled rows: s.rows[i] is the row of the original collection, and   *)
(* s.at[i] the position it was looked up at.                               *)
(***************************************************************************)
EXTENDS Big, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k
vars == <<c, k>>
Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}

Nc(d) == Len(d.m)
Same(q, n, f(_)) == Len(q) = n /\ \A i \in 1..n : q[i] = f(i)

DoLook(d, s) ==
    LET n == Len(s.rows)
        cols == 1..Nc(d)
        main == IF s.filter.p = 0 THEN IF s.file THEN "C20" ELSE "C01" ELSE "C03"
        Ext(i) == [j \in cols |-> Id(d, j, s.rows[i])]
    IN Clause(s.out = "ok", main, s.who \o ": failed")
       \cup IF s.out # "ok" THEN {} ELSE
            Clause(s.nev = Rows(d, s.filter) /\ \A i \in 1..n : s.at[i] = Pos(s.filter, s.rows[i]), main, s.who \o ": number of events")
       \* s.nob[t], s.distinct[t], s.lo[t], s.hi[t]: of type t-1, the number of objects, and the
       \* number of different, the smallest and the largest internal ids in the events
       \cup UNION {LET x == IF Countable(d, s.filter, t - 1) THEN Count(d, s.filter, t - 1) ELSE s.nob[t] IN
                   Clause(s.nob[t] = x /\ s.distinct[t] = x /\ s.lo[t] = 0 /\ s.hi[t] = x - 1, main, s.who \o ": number of objects")
                   : t \in {y \in DOMAIN s.nob : y - 1 \in {d.ot[j] : j \in cols}}}
       \* external ids of the sampled events by the table of ids and by conversions
       \cup Clause(Same(s.tab, n, Ext), main, s.who \o ": events")
       \cup Clause(Same(s.ext, n, Ext), "C02", s.who \o ": to_eid_event")
       \cup Clause(Same(s.int, n, LAMBDA i : s.ev[i]), "C02", s.who \o ": to_iid_event")
       \cup Clause(Same(s.eid, n, Ext), "C02", s.who \o ": to_eid")
       \cup Clause(Same(s.iid, n, LAMBDA i : s.ev[i]), "C02", s.who \o ": to_iid")
       \cup Clause(Same(s.sc, n, LAMBDA i : IF s.bin THEN IF Score(d, s.rows[i]) <= s.thr THEN 0 ELSE 1 ELSE Score(d, s.rows[i])),
                   IF s.bin THEN "C05" ELSE main, s.who \o ": scores")
       \cup Clause(Same(s.dig, n, LAMBDA i : IF s.bin THEN s.sc[i] ELSE (d.e * s.rows[i]) % d.n), "C05", s.who \o ": digitized scores")
       \cup Clause(~s.hasts \/ Same(s.ts, n, LAMBDA i : Stamp(d, s.rows[i])), "C04," \o main, s.who \o ": event features")
       \cup Clause(~s.hasfe \/ Same(s.fe, n, LAMBDA i : [j \in cols |-> Feat(d.ot[j], Id(d, j, s.rows[i]))]), "C04", s.who \o ": object features")

\* A factor model with given parameters, that are functions of internal ids: user u has bias
\* u % 5 and factor (u % 3), item i has bias (i % 7) and factor (i % 4) - 1; the mean is 2
DoPredict(d, s) ==
    LET n == Len(s.rows)
        U(i) == s.iu[i]
        I(i) == s.ii[i]
    IN Clause(s.out = "ok", "C07", "fit or prediction of a large collection failed")
       \cup IF s.out # "ok" THEN {} ELSE
            Clause(s.len = Rows(d, [p |-> 0]), "C07", "one prediction per event")
       \cup Clause(Same(s.eu, n, LAMBDA i : Id(d, s.eix[1] + 1, s.rows[i])) /\ Same(s.ei, n, LAMBDA i : Id(d, s.eix[2] + 1, s.rows[i])),
                   "C07,C02", "numbering of a recommender")
       \cup Clause(Same(s.val, n, LAMBDA i : 2 + (U(i) % 5) + (I(i) % 7) + (U(i) % 3) * ((I(i) % 4) - 1)), "C07", "prediction in a large batch")
       \cup Clause(Same(s.unk, n, LAMBDA i : 2 + (I(i) % 7)), "C08", "prediction of an unknown user in a large batch")

Verdicts(d, s) == CASE s.op = "look" -> DoLook(d, s)
                    [] s.op = "predict" -> DoPredict(d, s)

Init == c \in 1..Len(Cases) /\ k = 0
Step == /\ k < Len(Cases[c].steps)
        /\ LET s == Cases[c].steps[k + 1]
               bad == Verdicts(Cases[c].d, s)
           IN bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> k + 1, op |-> s.op, bad |-> bad]))
        /\ k' = k + 1 /\ UNCHANGED c
Done == k = Len(Cases[c].steps) /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
