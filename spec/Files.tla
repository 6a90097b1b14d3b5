-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Event files, feature files, and the original distributions of the data  *)
(* sets that are converted to them.                                        *)
(*                                                                         *)
(* All fields are strings: numbers as they are printed, strings with a     *)
(* leading "s".  Scores are integers in units of 1/E.                      *)
(* A loaded data set is [ev, sc, ef, u, i]: sequences of events, of scores *)
(* and of event features, and sets of <<id, features>> of the known users  *)
(* and items.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(q) == {q[i] : i \in DOMAIN q}
IndexOf(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o Join(Tail(q))
S(x) == "s" \o x

\* lines of an event file: comments and blank lines do not count; a file in which some rows have a
\* missing or a surplus column is no event file
Torn(lines) == \E j \in DOMAIN lines : lines[j].kind = "torn"
Data(lines) == SelectSeq(lines, LAMBDA l : l.kind = "data")
Field(lines, f(_)) == [j \in DOMAIN Data(lines) |-> f(Data(lines)[j])]
Events(lines) == Field(lines, LAMBDA l : l.ev)
ScoresOf(lines) == Field(lines, LAMBDA l : l.sc)
Features(lines) == Field(lines, LAMBDA l : l.ef)

\* feature tables: those of the rated objects
Rated(events, col) == {events[j][col] : j \in DOMAIN events}
Attach(table, events, col) == {<<table[j][1], table[j][2]>> : j \in {n \in DOMAIN table : table[n][1] \in Rated(events, col)}}

----------------------------------------------------------------------------
\* codes of the documented encodings
Sex(x) == CASE x = "M" -> "0" [] x = "F" -> "1"
Occupations100k == << "none", "other", "administrator", "artist", "doctor", "educator", "engineer", "entertainment",
    "executive", "healthcare", "homemaker", "lawyer", "librarian", "marketing", "programmer", "retired", "salesman",
    "scientist", "student", "technician", "writer" >>
Months == << "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" >>
Ages1m == << "1", "18", "25", "35", "45", "50", "56" >>
Genres == << "Action", "Adventure", "Animation", "Children's", "Comedy", "Crime", "Documentary", "Drama", "Fantasy",
    "Film-Noir", "Horror", "Musical", "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western" >>
Code(table, x) == ToString(IndexOf(table, x) - 1)

\* MovieLens 100k: u.user is [id, age, sex, job, zip], u.item is [id, title, date, url, flags] where
\* date is <<>> or <<day, month name, year>> and flags are 19, the first of them "unknown"
User100k(r) == <<r.age, Sex(r.sex), Code(Occupations100k, r.job), S(r.zip)>>
Item100k(r) == <<S(r.title)>>
               \o (IF r.date = <<>> THEN <<"0", "0", "0">>
                   ELSE <<r.date[1], ToString(IndexOf(Months, r.date[2])), r.date[3]>>)
               \o SubSeq(r.flags, 2, 19) \o <<S(r.url)>>
\* MovieLens 1M: users.dat is [id, sex, age, job, zip] with the characters of the zip code, movies.dat
\* is [id, title, year, genres] with pieces of the title, of which one may be the entity of an ellipsis
User1m(r) == <<Sex(r.sex), Code(Ages1m, r.age), r.job, S(Join(SubSeq(r.zip, 1, IF Len(r.zip) < 5 THEN Len(r.zip) ELSE 5)))>>
Title1m(r, dots) == Join([j \in DOMAIN r.title |-> IF r.id = "3845" /\ r.title[j] = "&#8230;" THEN dots ELSE r.title[j]])
Item1m(r, dots) == <<S(Title1m(r, dots)), r.year>>
                   \o [g \in 1..18 |-> IF Genres[g] \in Ran(r.genres) THEN "1" ELSE "0"]
Table(rows, f(_)) == [j \in DOMAIN rows |-> <<rows[j].id, f(rows[j])>>]

\* the mini data set
Mini(lines) == SelectSeq(lines, LAMBDA l : l.iu <= 10 /\ l.ii <= 10)

\* SUSHI3: a matrix with a line per user and a column per item; entries below 0 are not rated
RECURSIVE Matrix(_, _)
Matrix(m, u) ==
    IF u > Len(m) THEN <<>>
    ELSE LET rated == SelectSeq([i \in 1..Len(m[u]) |-> i], LAMBDA i : m[u][i] >= 0)
         IN [j \in DOMAIN rated |-> [ev |-> <<ToString(u - 1), ToString(rated[j] - 1)>>, sc |-> m[u][rated[j]],
                                     ef |-> <<>>, kind |-> "data"]] \o Matrix(m, u + 1)
\* users are numbered by line
Numbered(rows) == [j \in DOMAIN rows |-> <<ToString(j - 1), rows[j]>>]
=============================================================================
