------------------------------ MODULE FoldRun -------------------------------
(***************************************************************************)
(* Cross validation as processes and files.  A process is started for all  *)
(* folds or for a single one, iterates over the test sets that a seeded    *)
(* splitter yields, trains a model with its own seeded generator for each  *)
(* fold it was started for, predicts the test events and records aligned   *)
(* columns.  Files of single folds are merged in any order.                *)
(* Properties: nothing is trained on test events (C22), and what is        *)
(* recorded of a fold does not depend on the process that ran it, on the   *)
(* order of processes, nor on merging (C23).                               *)
(*                                                                         *)
(* Randomness: a generator is a position in the fixed sequence of draws of *)
(* a seed; Splits[i] is the test set that is drawn at position i.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K,               \* folds
          N,               \* events, numbered from 0
          MaxSteps,        \* runs and merges
          Flaws, Emit

VARIABLES tests,           \* tests[f]: the test set that the splitter draws for fold f
          proc,            \* the running process
          files,           \* what was written: a sequence of results
          log              \* runs and merges so far
vars == <<tests, proc, files, log>>

Folds == 0..(K - 1)
Idle == [on |-> FALSE]
Rows == 0..(N - 1)
Asc(S) == LET R[U \in SUBSET S] == IF U = {} THEN << >>
                ELSE LET m == CHOOSE x \in U : \A y \in U : x <= y IN <<m>> \o R[U \ {m}] IN R[S]

\* a model is described by what it depends on: training events and the position of
\* its generator; a prediction by the model and the event
Model(train, pos) == <<train, pos>>
Col(model, q) == [i \in DOMAIN q |-> <<model, q[i]>>]

Init == /\ \E q \in [Folds -> {S \in SUBSET Rows : S # {} /\ S # Rows}] :
              /\ \A f, g \in Folds : f < g => q[f] # q[g]
              /\ tests = q
        /\ proc = Idle /\ files = << >> /\ log = << >>

Start(want, what) ==
    /\ ~proc.on /\ Len(log) < MaxSteps
    /\ proc' = [on |-> TRUE, want |-> want, fold |-> 0, drawn |-> 0, trained |-> 0, res |-> << >>]
    /\ log' = Append(log, what)
    /\ UNCHANGED <<tests, files>>
StartAll == (\A i \in DOMAIN log : log[i].op # "all") /\ ~Emit /\ Start(Folds, [op |-> "all"])
StartOne(f) == (\A i \in DOMAIN log : log[i] # [op |-> "run", f |-> f]) /\ Start({f}, [op |-> "run", f |-> f])

\* the next fold of the running process
Skip == /\ proc.on /\ proc.fold < K /\ proc.fold \notin proc.want
        /\ proc' = [proc EXCEPT !.fold = @ + 1,
                                !.drawn = IF "nodraw" \in Flaws THEN @ ELSE @ + 1]
        /\ UNCHANGED <<tests, files, log>>
Work == /\ proc.on /\ proc.fold < K /\ proc.fold \in proc.want
        /\ LET f == proc.fold
               te == tests[proc.drawn]
               tr == IF "leak" \in Flaws THEN Rows ELSE Rows \ te
               pos == IF "ranon" \in Flaws THEN proc.trained ELSE 0
               m == Model(tr, pos)
               q == Asc(te)
               shown == IF "unaligned" \in Flaws /\ Cardinality(proc.want) > 1 THEN Asc(tests[0]) ELSE q
               name == IF "position" \in Flaws THEN proc.trained ELSE f
               rec == [f |-> name, mask |-> q, ev |-> shown, model |-> m, pred |-> Col(m, q)]
           IN proc' = [proc EXCEPT !.fold = @ + 1, !.drawn = @ + 1, !.trained = @ + 1,
                                   !.res = Append(@, rec)]
        /\ UNCHANGED <<tests, files, log>>
Finish == /\ proc.on /\ proc.fold = K
          /\ files' = Append(files, [res |-> proc.res, one |-> Cardinality(proc.want) = 1, merged |-> << >>])
          /\ proc' = Idle /\ UNCHANGED <<tests, log>>

\* files of different single folds, in any order
Injective(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Sources == {i \in DOMAIN files : files[i].one /\ files[i].merged = << >>}
RECURSIVE Merged(_)
Add(acc, r) ==
    IF "keepfirst" \in Flaws THEN acc
    ELSE IF "renumber" \in Flaws THEN Append(acc, [r EXCEPT !.f = Len(acc)])
    ELSE Append(acc, r)
Merged(q) == IF Len(q) = 0 THEN << >>
             ELSE IF Len(q) = 1 THEN files[q[1]].res
             ELSE Add(Merged(SubSeq(q, 1, Len(q) - 1)), files[q[Len(q)]].res[1])
Merge(q) == /\ ~proc.on /\ Len(log) < MaxSteps
            /\ files' = Append(files, [res |-> Merged(q), one |-> FALSE, merged |-> q])
            /\ log' = Append(log, [op |-> "merge", of |-> q])
            /\ UNCHANGED <<tests, proc>>
Merges == \E n \in 1..K : \E q \in [1..n -> Sources] : Injective(q) /\ Merge(q)

Show == /\ ~proc.on /\ Len(log) = MaxSteps
        /\ Emit => PrintT("HIST|" \o ToJson([K |-> K, steps |-> log]))
        /\ UNCHANGED vars
Next == StartAll \/ (\E f \in Folds : StartOne(f)) \/ Skip \/ Work \/ Finish \/ Merges \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Recs == UNION {{files[i].res[j] : j \in DOMAIN files[i].res} : i \in DOMAIN files}
\* C22
NoLeak == \A r \in Recs : r.model[1] \cap {r.mask[i] : i \in DOMAIN r.mask} = {}
Complete == \A r \in Recs : r.model[1] \cup {r.mask[i] : i \in DOMAIN r.mask} = Rows
Aligned == \A r \in Recs : /\ r.ev = r.mask
                           /\ Len(r.pred) = Len(r.mask)
                           /\ \A i \in DOMAIN r.pred : r.pred[i] = <<r.model, r.mask[i]>>
\* C23
Independent == \A r, s \in Recs : r.f = s.f => r = s
Numbered == \A r \in Recs : r.f \in Folds /\ r.mask = Asc(tests[r.f])
OneEach == \A i \in DOMAIN files : Injective([j \in DOMAIN files[i].res |-> files[i].res[j].f])
Union == \A i \in DOMAIN files : files[i].merged # << >> =>
            {files[i].res[j] : j \in DOMAIN files[i].res}
            = UNION {{files[a].res[j] : j \in DOMAIN files[a].res} : a \in {files[i].merged[x] : x \in DOMAIN files[i].merged}}
Whole == \A i \in DOMAIN files : \A a \in DOMAIN files :
            (Len(files[i].merged) = K /\ ~files[a].one /\ files[a].merged = << >>) =>
            {files[i].res[j] : j \in DOMAIN files[i].res} = {files[a].res[j] : j \in DOMAIN files[a].res}
Written == [][\A i \in DOMAIN files : i \in DOMAIN files' /\ files'[i] = files[i]]_vars
\* generation does not depend on the test sets
OneSplit == tests = [f \in Folds |-> {f}]
=============================================================================
