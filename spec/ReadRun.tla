------------------------------ MODULE ReadRun ------------------------------
(***************************************************************************)
(* Reading of event files as a process: one line after the other is taken  *)
(* from the file, recognized, and added to what has been read; then the    *)
(* objects get their numbers in order of their ids, and feature tables are *)
(* joined.  What comes out has to be what Files demands of a loaded file   *)
(* (C20): all data lines, in order and with multiplicity, nothing else.    *)
(***************************************************************************)
EXTENDS Files, Json

CONSTANTS Kinds,        \* kinds of lines
          MaxLines, Flaws, Emit

VARIABLES file, final, pc, at, got, num, tab
vars == <<file, final, pc, at, got, num, tab>>

\* text lines by kind: data lines, comments (one of them looking like data), blank lines
Line(x) == CASE x = "one" -> [kind |-> "data", ev |-> <<7, 3>>, sc |-> 2, ef |-> <<10>>]
             [] x = "two" -> [kind |-> "data", ev |-> <<5, 3>>, sc |-> 4, ef |-> <<11>>]
             [] x = "three" -> [kind |-> "data", ev |-> <<7, 9>>, sc |-> 2, ef |-> <<10>>]
             [] x = "short" -> [kind |-> "torn", ev |-> <<7>>, sc |-> 2, ef |-> <<>>]
             [] x = "surplus" -> [kind |-> "torn", ev |-> <<7, 3>>, sc |-> 2, ef |-> <<10, 10>>]
             [] x = "comment" -> [kind |-> "other", text |-> "words"]
             [] x = "hash" -> [kind |-> "other", text |-> "data"]
             [] x = "blank" -> [kind |-> "other", text |-> ""]
             [] x = "spaces" -> [kind |-> "other", text |-> " "]
Lines == [j \in DOMAIN file |-> Line(file[j])]
\* features of users, of which 6 has not rated
Users == << <<7, "a">>, <<6, "b">>, <<5, "c">> >>

Init == file = <<>> /\ final = FALSE /\ pc = "write" /\ at = 1 /\ got = <<>> /\ num = <<>> /\ tab = <<>>
Write == /\ pc = "write" /\ Len(file) < MaxLines
         /\ \E x \in Kinds : file' = Append(file, x) /\ UNCHANGED <<final, pc, at, got, num, tab>>
Close == /\ pc = "write" /\ Data(Lines) # <<>> /\ final' \in BOOLEAN /\ pc' = "read"
         /\ UNCHANGED <<file, at, got, num, tab>>
\* one line
Skips(l) == \/ l.kind = "other" /\ ~("hash" \in Flaws /\ l.text = "data")
            \/ "header" \in Flaws /\ at = 1
            \/ "lastline" \in Flaws /\ at = Len(file) /\ ~final
            \/ "torn" \in Flaws /\ l.kind = "torn"
            \/ "repeated" \in Flaws /\ \E j \in DOMAIN got : l.kind = "data" /\ got[j].ev = l.ev
Read == /\ pc = "read" /\ ~Emit /\ at <= Len(file)
        /\ IF "untilblank" \in Flaws /\ file[at] = "blank" THEN at' = Len(file) + 1 /\ got' = got
           ELSE /\ at' = at + 1
                /\ got' = IF Skips(Lines[at]) THEN got
                          ELSE Append(got, IF Lines[at].kind = "other" THEN Line("one") ELSE Lines[at])
        /\ UNCHANGED <<file, final, pc, num, tab>>
\* rows which do not fit are no data: the file is refused as a whole
Refuse == /\ pc = "read" /\ ~Emit /\ at > Len(file) /\ (\E j \in DOMAIN got : got[j].kind = "torn")
          /\ pc' = "refused" /\ UNCHANGED <<file, final, at, got, num, tab>>
Number == /\ pc = "read" /\ at > Len(file) /\ (\A j \in DOMAIN got : got[j].kind # "torn") /\ pc' = "join"
          /\ num' = LET ids == Rated(Events(got), 1) IN
                    [x \in ids |-> Cardinality({y \in ids : y < x})]
          /\ UNCHANGED <<file, final, at, got, tab>>
\* the feature table is read in its order, rows go to the number of their object
RowsIn == {j \in DOMAIN Users : "alltable" \in Flaws \/ Users[j][1] \in DOMAIN num}
Join1 == /\ pc = "join" /\ pc' = "done"
         /\ tab' = IF "tableorder" \in Flaws
                   THEN LET kept == SelectSeq(Users, LAMBDA r : r[1] \in DOMAIN num) IN
                        [n \in 0..(Len(kept) - 1) |-> kept[n + 1][2]]
                   ELSE [n \in Ran(num) |-> (CHOOSE r \in Ran(Users) : r[1] \in DOMAIN num /\ num[r[1]] = n)[2]]
         /\ UNCHANGED <<file, final, at, got, num>>
Show == /\ Emit /\ pc = "read" /\ PrintT("HIST|" \o ToJson([ev |-> file, final |-> final])) /\ UNCHANGED vars
Next == Write \/ Close \/ Read \/ Refuse \/ Number \/ Join1 \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* at any time the reader has what the lines read so far consist of
Complete == pc # "write" => got = SelectSeq(SubSeq(Lines, 1, at - 1), LAMBDA l : l.kind # "other")
\* files are accepted if and only if all of their rows fit
Refused == /\ pc \in {"join", "done"} => ~Torn(Lines) /\ got = Data(Lines)
           /\ pc = "refused" => Torn(Lines)
\* numbers are dense and in order of ids
Ordered == pc \in {"join", "done"} =>
    /\ Ran(num) = 0..(Cardinality(DOMAIN num) - 1)
    /\ \A x, y \in DOMAIN num : x < y <=> num[x] < num[y]
\* rows of features belong to their objects
Joined == pc = "done" =>
    {<<x, tab[num[x]]>> : x \in DOMAIN num} = Attach(Users, Events(Lines), 1)
Ends == <>[](Emit \/ pc \in {"write", "done", "refused"})
=============================================================================
