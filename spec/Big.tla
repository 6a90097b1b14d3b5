--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Large collections of events, described by formulas instead of listed.   *)
(* Row r (from 0) of column j of a collection d holds the external id      *)
(*     b[j] + s[j] * ((a[j] * r + c[j]) % m[j])                            *)
(* and has the score A + S * ((e * r) % n), all in 32 bits.  Columns of    *)
(* the same type have disjoint or equal ranges.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Id(d, j, r) == d.b[j] + d.s[j] * ((d.a[j] * r + d.c[j]) % d.m[j])
Score(d, r) == d.A + d.S * ((d.e * r) % d.n)
Stamp(d, r) == (d.f * r) % 1000003

\* rows kept by a filter: all, or those with r % p # q
Kept(fl, r) == fl.p = 0 \/ r % fl.p # fl.q
Rows(d, fl) == IF fl.p = 0 THEN d.N ELSE d.N - ((d.N + fl.p - 1 - fl.q) \div fl.p)
\* position of a kept row among the kept rows
Pos(fl, r) == IF fl.p = 0 THEN r ELSE r - ((r + fl.p - 1 - fl.q) \div fl.p)

\* the objects of type t (columns of one type have either the same b, s, m, or disjoint ranges)
Ids(d, fl, t) == UNION {{Id(d, j, r) : r \in {x \in 0..(d.N - 1) : Kept(fl, x)}} : j \in {y \in DOMAIN d.m : d.ot[y] = t}}
\* their number.  Multipliers are coprime to m[j], so that rows are the same object iff they
\* are equal modulo m[j]; for a large filtered collection the number is known only if all
\* rows are different objects
Cols(d, t) == {y \in DOMAIN d.m : d.ot[y] = t}
Countable(d, fl, t) == d.N <= 5000 \/ fl.p = 0 \/ \A j \in Cols(d, t) : d.N <= d.m[j]
SumOver(S, f(_)) == LET F[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + F[T \ {x}] IN F[S]
Count(d, fl, t) ==
    IF d.N <= 5000 THEN Cardinality(Ids(d, fl, t))
    ELSE SumOver({d.b[j] : j \in Cols(d, t)},
                 LAMBDA x : LET j == CHOOSE y \in Cols(d, t) : d.b[y] = x
                                n == Rows(d, fl)
                            IN IF n < d.m[j] THEN n ELSE d.m[j])
Feat(t, x) == (x % 97) * (t + 2)
=============================================================================
