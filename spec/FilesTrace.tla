----------------------------- MODULE FilesTrace -----------------------------
(* Decides recorded conversions and loads of files (C20, C21).             *)
EXTENDS Files, Json, IOUtils

Sc == INSTANCE Scores

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k
vars == <<c, k>>

Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}
NoTab == [has |-> FALSE, rows |-> <<>>]
Rows(o) == {<<o.rows[j][1], o.rows[j][2]>> : j \in DOMAIN o.rows}

\* o: the observation of a loaded data set; lines: what it has to consist of
Loaded(o, lines, dom, users, items, tag, who) ==
    Clause(o.out = "ok", tag, who \o ": failed")
    \cup IF o.out # "ok" THEN {} ELSE
         Clause(o.ev = Events(lines), tag, who \o ": events")
    \cup Clause(o.sc = ScoresOf(lines) /\ o.exact, tag, who \o ": scores")
    \cup Clause(o.ef = Features(lines), tag, who \o ": event features")
    \cup Clause(o.dom = dom, tag, who \o ": score domain")
    \cup Clause(o.u.has = users.has /\ (users.has => Rows(o.u) = Attach(users.rows, Events(lines), 1)
                                          /\ Cardinality(Rows(o.u)) = Len(o.u.rows)), tag, who \o ": user features")
    \cup Clause(o.i.has = items.has /\ (items.has => Rows(o.i) = Attach(items.rows, Events(lines), 2)
                                          /\ Cardinality(Rows(o.i)) = Len(o.i.rows)), tag, who \o ": item features")

Domain(s) == IF s.dom # <<>> THEN s.dom
             ELSE LET X == Ran(ScoresOf(s.lines)) IN <<Sc!SMin(X), Sc!SMax(X), Sc!Gap(X)>>
DoEvents(s) == IF Torn(s.lines) THEN Clause(s.o.out # "ok", "C20", s.who \o ": torn rows accepted") ELSE
               \* scores that are not numbers may be refused, but no row may get lost
               IF s.junk /\ s.o.out # "ok" THEN {} ELSE
               Loaded(s.o, s.lines, IF s.scored THEN Domain(s) ELSE <<>>, NoTab, NoTab, "C20", s.who)
               \cup Clause(s.o.out # "ok" \/ (s.o.cols = s.cols /\ s.o.nt = s.nt), "C20", s.who \o ": object types")
               \cup Clause(s.o.out # "ok" \/ s.o.ordered, "C20", s.who \o ": object tables")

\* loading converted files, which the recorder wrote itself
DoSample(s) == Loaded(s.o, s.lines, s.dom, s.users, s.items, "C20", s.who)

Tab(t) == [has |-> TRUE, rows |-> t]
Do100k(s) ==
    LET U == Tab(Table(s.users, User100k))
        M == Tab(Table(s.items, Item100k))
    IN Clause(s.conv = "ok", "C21", "movielens100k: conversion failed")
       \cup Loaded(s.o, s.lines, <<1, 5, 1>>, U, M, "C21", "movielens100k")
       \cup (IF s.mini = <<>> THEN {}
             ELSE Clause(s.convmini = "ok", "C21", "movielens_mini: conversion failed")
             \cup Loaded(s.mini[1], Mini(s.lines), <<1, 5, 1>>, U, M, "C21", "movielens_mini"))
Do1m(s) == Clause(s.conv = "ok", "C21", "movielens1m: conversion failed")
           \cup Loaded(s.o, s.lines, <<1, 5, 1>>, Tab(Table(s.users, User1m)),
                       Tab(Table(s.items, LAMBDA r : Item1m(r, s.dots))), "C21", "movielens1m")
DoFlixster(s) == Clause(s.conv = "ok", "C21", "flixster: conversion failed")
                 \cup Loaded(s.o, s.lines, <<1, 10, 1>>, NoTab, NoTab, "C21", "flixster")
DoSushi(s) == Clause(s.conv = "ok", "C21", "sushi3: conversion failed")
              \cup Loaded(s.o, Matrix(s.matrix, 1), <<0, 4, 1>>, Tab(Numbered(s.users)), Tab(s.items), "C21", "sushi3")

\* a workspace: what lies there, what the last conversions found, and what the last cut found
Plain(v) == CASE v.op = "100k" -> [lines |-> v.lines, dom |-> <<1, 5, 1>>, u |-> Tab(Table(v.users, User100k)), i |-> Tab(Table(v.items, Item100k))]
              [] v.op = "1m" -> [lines |-> v.lines, dom |-> <<1, 5, 1>>, u |-> Tab(Table(v.users, User1m)),
                                 i |-> Tab(Table(v.items, LAMBDA r : Item1m(r, v.dots)))]
              [] v.op = "flixster" -> [lines |-> v.lines, dom |-> <<1, 10, 1>>, u |-> NoTab, i |-> NoTab]
              [] v.op = "sushi" -> [lines |-> Matrix(v.matrix, 1), dom |-> <<0, 4, 1>>, u |-> Tab(Numbered(v.users)), i |-> Tab(v.items)]
RECURSIVE Work(_, _, _)
Work(s, j, w) ==
    IF j > Len(s.acts) THEN {}
    ELSE LET a == s.acts[j]
             found(v) == Plain(s.versions[v])
             name == "work " \o a.a
             bad == Clause(a.out = "ok", "C21", name \o ": failed") \cup Clause(a.kept, "C21", name \o ": originals changed")
                    \cup IF a.a = "load" THEN LET p == found(w.conv[a.f]) IN Loaded(a.o[1], p.lines, p.dom, p.u, p.i, "C21", name)
                         ELSE IF a.a = "loadmini"
                         THEN LET p == found(w.conv[a.f])  m == found(w.mini) IN
                              Loaded(a.o[1], Mini(m.lines), p.dom, p.u, p.i, "C21", name)
                         ELSE {}
             next == CASE a.a = "put" -> [w EXCEPT !.orig[a.f] = a.v]
                       [] a.a = "convert" -> [w EXCEPT !.conv[a.f] = w.orig[a.f]]
                       [] a.a = "mini" -> [w EXCEPT !.mini = w.conv[a.f]]
                       [] OTHER -> w
         IN IF bad # {} THEN bad ELSE Work(s, j + 1, next)
DoWork(s) == Work(s, 1, [orig |-> <<0, 0>>, conv |-> <<0, 0>>, mini |-> 0])

Verdicts(s) == CASE s.op = "work" -> DoWork(s)
                 [] s.op = "events" -> DoEvents(s)
                 [] s.op = "sample" -> DoSample(s)
                 [] s.op = "100k" -> Do100k(s)
                 [] s.op = "1m" -> Do1m(s)
                 [] s.op = "flixster" -> DoFlixster(s)
                 [] s.op = "sushi" -> DoSushi(s)

Init == c \in 1..Len(Cases) /\ k = 0
Step == /\ k = 0
        /\ LET bad == Verdicts(Cases[c]) IN
           bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> 1, op |-> Cases[c].op, bad |-> bad]))
        /\ k' = 1 /\ UNCHANGED c
Done == k = 1 /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
