------------------------------ MODULE TreeRun ------------------------------
(***************************************************************************)
(* Converting nested results for JSON output, in place.  Values are nodes  *)
(* of a memory: lists and dictionaries hold references, so that one value  *)
(* may be held at several places.  The converter walks depth first and     *)
(* replaces what is not plain by new nodes.  At any time the result means  *)
(* what it meant before, and in the end it is plain (C24).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,            \* nodes of the result
          Width,        \* elements of a container
          Flaws, Emit

VARIABLES mem, stack, pc, orig
vars == <<mem, stack, pc, orig>>

Pl == INSTANCE Pipeline

Containers == {"list", "dict"}
Seqs(S) == UNION {[1..n -> S] : n \in 0..Width}
\* elements of arrays are what an array of objects may hold
Nodes(i) == {[k |-> k, v |-> <<>>, of |-> i] : k \in {"leaf", "np", "zero"}}
            \cup {[k |-> k, v |-> q, of |-> i] : k \in {"list", "dict", "arr"}, q \in Seqs((i + 1)..N)}

\* what a value means: plain trees, as they are defined in Pipeline
RECURSIVE Tree(_, _)
Tree(m, n) ==
    LET x == m[n] IN
    CASE x.k \in {"leaf", "zero"} -> [k |-> "leaf", v |-> <<x.k, x.of>>]
      [] x.k = "np" -> [k |-> "np", v |-> <<"leaf", x.of>>]
      [] x.k = "arr" -> [k |-> "arr", shape |-> <<Len(x.v)>>, v |-> [j \in DOMAIN x.v |-> Tree(m, x.v[j])]]
      [] x.k = "list" -> [k |-> "list", v |-> [j \in DOMAIN x.v |-> Tree(m, x.v[j])]]
      [] x.k = "dict" -> [k |-> "dict", v |-> [j \in DOMAIN x.v |-> <<j, Tree(m, x.v[j])>>]]
Means(m) == Pl!Plain(Tree(m, 1))
RECURSIVE Below(_, _)
Below(m, n) == {n} \cup UNION {Below(m, m[n].v[j]) : j \in DOMAIN m[n].v}

\* the result is built node by node, the last ones first
Init == mem = <<>> /\ stack = <<>> /\ pc = "build" /\ orig = <<>>
Build == /\ pc = "build" /\ Len(mem) < N
         /\ \E x \in Nodes(N - Len(mem)) :
              /\ Len(mem) = N - 1 => x.k \in Containers
              /\ mem' = <<x>> \o mem
         /\ UNCHANGED <<stack, pc, orig>>
Begin == /\ pc = "build" /\ Len(mem) = N /\ Below(mem, 1) = 1..N
         /\ pc' = "walk" /\ orig' = mem /\ stack' = <<[n |-> 1, j |-> 1]>> /\ UNCHANGED mem

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Onward == Append(Pop, [Top EXCEPT !.j = @ + 1])
Child == mem[mem[Top.n].v[Top.j]]
New(x) == Append([mem EXCEPT ![Top.n].v[Top.j] = Len(mem) + 1], x)

Return == /\ pc = "walk" /\ ~Emit /\ stack # <<>> /\ Top.j > Len(mem[Top.n].v)
          /\ stack' = Pop /\ UNCHANGED <<mem, pc, orig>>
Visit ==
    /\ pc = "walk" /\ ~Emit /\ stack # <<>> /\ Top.j <= Len(mem[Top.n].v)
    /\ UNCHANGED <<pc, orig>>
    /\ CASE Child.k = "leaf" \/ (Child.k = "zero" /\ "falsy" \notin Flaws) ->
              mem' = mem /\ stack' = Onward
         [] Child.k = "zero" /\ "falsy" \in Flaws ->
              mem' = New([Child EXCEPT !.k = "leaf"]) /\ stack' = Onward
         [] Child.k = "np" ->
              mem' = (IF "inlist" \in Flaws /\ mem[Top.n].k = "list" THEN mem ELSE New([Child EXCEPT !.k = "leaf"]))
              /\ stack' = Onward
         [] Child.k = "arr" ->
              /\ mem' = New([Child EXCEPT !.k = "list"])
              /\ stack' = IF "flatarray" \in Flaws THEN Onward ELSE Append(Onward, [n |-> Len(mem) + 1, j |-> 1])
         [] Child.k \in Containers ->
              /\ stack' = IF "nested" \in Flaws /\ mem[Top.n].k = "list" /\ Child.k = "list" THEN Onward
                          ELSE Append(Onward, [n |-> mem[Top.n].v[Top.j], j |-> 1])
              \* a copy instead of the container itself: its other holders keep what is not plain
              /\ mem' = IF "singlelast" \in Flaws /\ Len(Child.v) > 1
                        THEN [mem EXCEPT ![mem[Top.n].v[Top.j]].v = <<Child.v[1]>>] ELSE mem
End == /\ pc = "walk" /\ ~Emit /\ stack = <<>> /\ pc' = "done" /\ UNCHANGED <<mem, stack, orig>>
Show == /\ Emit /\ pc = "walk" /\ PrintT("HIST|" \o ToJson([mem |-> mem])) /\ UNCHANGED vars
Next == Build \/ Begin \/ Return \/ Visit \/ End \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* nothing is lost or changed on the way
Kept == pc # "build" => Means(mem) = Means(orig)
\* in the end only plain values are left, wherever they are held
AllPlain == pc = "done" => \A n \in Below(mem, 1) : mem[n].k \in {"leaf", "zero", "list", "dict"}
\* containers are converted where they are: everyone who holds one sees it converted
InPlace == pc = "done" => \A n \in 1..N : orig[n].k \in Containers =>
              /\ mem[n].k = orig[n].k /\ Len(mem[n].v) = Len(orig[n].v)
              /\ \A j \in DOMAIN orig[n].v : orig[orig[n].v[j]].k \in Containers => mem[n].v[j] = orig[n].v[j]
\* values outside of the containers are not touched
Untouched == pc # "build" => \A n \in 1..N : orig[n].k \notin Containers => mem[n] = orig[n]
=============================================================================
