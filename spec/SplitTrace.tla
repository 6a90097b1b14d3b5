----------------------------- MODULE SplitTrace -----------------------------
(* Decides recorded splits (C18, C19).                                     *)
EXTENDS Splits, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k
vars == <<c, k>>

Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}

DoKFold(s) ==
    LET lab == IF s.cls = "interlaced" THEN [i \in 1..s.n |-> 0] ELSE s.lab
        legal == LegalK(s.n, lab, s.K)
        who == s.cls \o ": "
    IN IF ~legal THEN Clause(s.out = "exc:ValueError", "C18", who \o "illegal number of folds accepted")
       ELSE Clause(s.out = "ok", "C18", who \o "failed")
            \cup IF s.out # "ok" THEN {} ELSE
                 Clause(s.nsplits = s.K, "C18", who \o "get_n_splits")
            \cup Clause(Partition(s.n, s.K, s.folds), "C18", who \o "not a partition")
            \cup Clause(Balanced(lab, s.folds), "C18", who \o "groups are not balanced")
            \cup Clause(s.cls # "kfold" \/ s.shuffle \/ Contiguous(lab, s.folds), "C18", who \o "not contiguous")
            \cup Clause(s.cls # "interlaced" \/ Interlaced(s.K, s.folds), "C18", who \o "not interlaced")
            \cup Clause(s.again = s.folds, "C18", who \o "not reproducible")
            \cup Clause(s.argsok, "C18", who \o "arguments were changed")

DoShuffle(s) ==
    IF MustRefuse(s.lab, s.tr, s.te)
    THEN Clause(s.out = "exc:ValueError", "C19", "unsuitable sizes accepted")
    ELSE Clause(s.out = "ok" \/ (s.out = "exc:ValueError" /\ MayRefuse(s.lab, s.tr, s.te)), "C19", "split failed")
         \cup IF s.out # "ok" THEN {} ELSE
              Clause(Len(s.folds) = s.K /\ s.nsplits = s.K, "C19", "number of splits")
         \cup Clause(\A i \in DOMAIN s.folds : SplitOk(s.n, s.folds[i]), "C19", "training and test sets overlap")
         \cup Clause(\A i \in DOMAIN s.folds : Sizes(s.lab, s.tr, s.te, s.folds[i]), "C19", "sizes within groups")
         \cup Clause(s.shuffle \/ \A i \in DOMAIN s.folds : TrainFirst(s.lab, s.folds[i]), "C19", "order without shuffling")
         \cup Clause(s.again = s.folds, "C19", "not reproducible")
         \* only recorded for cases in which equal draws are practically impossible
         \cup Clause(~s.diverse \/ Cardinality(Ran(s.folds)) = Len(s.folds), "C19", "splits are not independent")
         \cup Clause(s.argsok, "C19", "arguments were changed")

DoNoSizes(s) == Clause(s.out = "exc:ValueError", "C19", "missing sizes accepted")

Verdicts(s) == CASE s.op = "kfold" -> DoKFold(s)
                 [] s.op = "shuffle" -> DoShuffle(s)
                 [] s.op = "nosizes" -> DoNoSizes(s)

Init == c \in 1..Len(Cases) /\ k = 0
Step == /\ k = 0
        /\ LET bad == Verdicts(Cases[c]) IN
           bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> 1, op |-> Cases[c].op, bad |-> bad]))
        /\ k' = 1 /\ UNCHANGED c
Done == k = 1 /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
