----------------------------- MODULE ScoreTrace -----------------------------
(* Decides recorded evaluations of score domains (C05, C15).               *)
EXTENDS Scores, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_IN)
VARIABLES c, k
vars == <<c, k>>

Clause(ok, tag, name) == IF ok THEN {} ELSE {<<tag, name>>}
Near(a, b, t) == a - b <= t /\ b - a <= t
\* a sequence of reals, recorded in units of 1/(1000 E), equals f(1..n) of units of 1/E, times m
SeqIs(q, n, f(_), m) == Len(q) = n /\ \A i \in 1..n : Near(q[i], f(i) * m, 1)

DigOk(s, dig, x) == /\ Len(dig) = Len(x)
                    /\ \A i \in DOMAIN x : dig[i] \in NearestFast(s.A, s.S, s.n, x[i])
LevelsOk(s, q) == SeqIs(q, s.n, LAMBDA i : Level(s.A, s.S, i - 1), 1000)
\* inner boundaries, and nothing cut off at the ends
BinsOk(s, o) == /\ o.nbins = s.n
                /\ SeqIs(o.inner, s.n - 1, LAMBDA i : Boundary2(s.A, s.S, i), 500)
                /\ o.lowopen /\ o.highopen

\* one observation of a holder of a domain (container, filtered container, recommender)
Holder(s, o) ==
    Clause(o.out = "ok", "C05", o.who \o ": failed")
    \cup IF o.out # "ok" THEN {} ELSE
         Clause(o.lv = s.n, "C05", o.who \o ": number of levels")
    \cup Clause(LevelsOk(s, o.levels), "C05", o.who \o ": levels")
    \cup Clause(BinsOk(s, o), "C05,C15", o.who \o ": bins")
    \cup (IF o.hasdig
          THEN Clause(DigOk(s, o.dig, o.own), "C05", o.who \o ": digitization of own scores")
          \cup Clause(DigOk(s, o.digx, s.x), "C05", o.who \o ": digitization of given scores")
          ELSE {})

SumSeq(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE F[i - 1] + q[i] IN F[Len(q)]

\* o: an observed histogram of the scores x, dig: digitization of the same scores
Histogram(s, o, x, dig) ==
    Clause(o.out = "ok", "C15", o.who \o ": failed")
    \cup IF o.out # "ok" THEN {} ELSE
         Clause(LevelsOk(s, o.levels), "C15", o.who \o ": score levels")
    \cup Clause(Len(o.hist) = s.n, "C15", o.who \o ": number of bins")
    \cup (IF Len(o.hist) = s.n
          THEN LET near == [i \in DOMAIN x |-> NearestFast(s.A, s.S, s.n, x[i])] IN
               Clause(/\ SumSeq(o.hist) = Len(x) * s.rep
                      /\ \A j \in 1..s.n :
                           /\ Cardinality({i \in DOMAIN x : near[i] = {j - 1}}) * s.rep <= o.hist[j]
                           /\ Cardinality({i \in DOMAIN x : (j - 1) \in near[i]}) * s.rep >= o.hist[j],
                      "C15", o.who \o ": counts")
          \cup Clause(Len(dig) # Len(x) \/ o.hist = [j \in 1..s.n |-> s.rep * Hist(s.n, dig)[j]], "C15", o.who \o ": disagrees with digitization")
          \cup (IF o.hasdens
                THEN Clause(Len(o.dens) = s.n /\ \A j \in 1..s.n :
                              Near(o.dens[j] * Len(x), (o.hist[j] \div s.rep) * 1000000, Len(x)), "C15", o.who \o ": densities")
                ELSE {})
          ELSE {})

DoDomain(s) == UNION {Holder(s, s.holders[i]) : i \in DOMAIN s.holders}
               \cup UNION {Histogram(s, s.hists[i], s.x, s.holders[1].digx) : i \in DOMAIN s.hists}

\* a given number nb of bins: the range of the scores in equal parts.  A score
\* on an inner edge may fall on either side of it.
DoBins(s) ==
    LET lo == SMin({s.x[i] : i \in DOMAIN s.x})
        hi == SMax({s.x[i] : i \in DOMAIN s.x})
        n == s.nb
        Below(j, strict) == Cardinality({i \in DOMAIN s.x :
            LET l == (s.x[i] - lo) * n
                r == (hi - lo) * j
            IN IF strict THEN l < r ELSE l <= r})
        Cum == LET F[j \in 0..n] == IF j = 0 THEN 0 ELSE F[j - 1] + s.hist[j] IN F
    IN Clause(s.out = "ok" /\ Len(s.hist) = n /\ Len(s.levels) = n, "C15", "equal bins: failed")
       \cup IF ~(s.out = "ok" /\ Len(s.hist) = n /\ Len(s.levels) = n) THEN {} ELSE
            Clause(Cum[n] = Len(s.x), "C15", "equal bins: total")
       \cup (IF hi = lo THEN {} ELSE
             Clause(\A j \in 1..(n - 1) : Below(j, TRUE) <= Cum[j] /\ Cum[j] <= Below(j, FALSE),
                   "C15", "equal bins: counts")
       \cup Clause(\A j \in 1..n : Near(2 * n * s.levels[j], (2 * n * lo + (2 * j - 1) * (hi - lo)) * 1000, 2 * n),
                   "C15", "equal bins: centers"))

\* a domain that is estimated from the scores
DoEst(s) ==
    LET D == {s.x[i] : i \in DOMAIN s.x}
        mn == SMin(D)
        mx == SMax(D)
        g == Gap(D)
    IN Clause(s.out = "ok", "C05", "estimated domain: failed")
       \cup IF s.out # "ok" THEN {} ELSE
            Clause(s.dom = <<1000 * mn, 1000 * mx, 1000 * g>>, "C05", "estimated domain")
       \cup Clause((mx - mn) % g # 0 \/ s.lv = (mx - mn) \div g + 1, "C05", "levels of an estimated domain")
       \cup Clause(Len(s.dig) = Len(s.x) /\ \A i \in DOMAIN s.dig : s.dig[i] >= 0 /\ s.dig[i] < s.lv,
                   "C05", "digitized scores within the levels")
       \cup Clause((mx - mn) % g # 0 \/ \A i \in DOMAIN s.dig :
                     s.dig[i] \in NearestFast(mn, g, (mx - mn) \div g + 1, s.x[i]), "C05", "digitization by an estimated domain")

DoBinarize(s) ==
    Clause(s.out = "ok", "C05", "binarization failed")
    \cup IF s.out # "ok" THEN {} ELSE
         Clause(s.sc = [i \in DOMAIN s.x |-> Binarized(s.x[i], s.thr)], "C05", "binarized scores")
    \cup Clause(s.dom = <<0, 1000, 1000>> /\ s.lv = 2, "C05", "binarized domain")

(* A behaviour of ScoreRun: after every operation all containers are        *)
(* observed.  The abstract containers are those the operations define.      *)
Bin(q, E, t2, w) == [A |-> 0, S |-> E, n |-> 2, own |-> [i \in DOMAIN q.own |-> IF w * q.own[i] <= t2 THEN 0 ELSE E]]
Kept(q, keep) == LET F[i \in 0..Len(q)] == IF i = 0 THEN << >> ELSE IF keep[i] = 1 THEN Append(F[i - 1], q[i]) ELSE F[i - 1]
                 IN F[Len(q)]
After(cs, o, E) ==
    CASE o.op = "load" -> <<[A |-> o.A, S |-> o.S, n |-> o.n, own |-> o.sc]>>
      [] o.op = "binarize" -> [cs EXCEPT ![o.at] = Bin(@, E, o.thr, 1)]
      [] o.op = "centre" -> [cs EXCEPT ![o.at] = Bin(@, E, @.A + MaxOf(@.A, @.S, @.n), 2)]
      [] OTHER -> Append(cs, [cs[o.at] EXCEPT !.own = Kept(@, o.keep)])
DoHistory(s) ==
    LET cs == LET F[i \in 0..Len(s.steps)] == IF i = 0 THEN << >> ELSE After(F[i - 1], s.steps[i].what, s.E) IN F
    IN UNION {LET o == s.steps[i] IN
              IF o.out # "ok" \/ Len(o.obs) # Len(cs[i]) THEN {<<"C05", o.what.op \o ": failed">>}
              ELSE UNION {LET d == [A |-> cs[i][j].A, S |-> cs[i][j].S, n |-> cs[i][j].n, x |-> o.obs[j].x, rep |-> 1]
                          IN Clause(o.obs[j].own = cs[i][j].own, "C05", o.what.op \o ": scores")
                             \cup Holder(d, [o.obs[j] EXCEPT !.own = cs[i][j].own])
                             \cup Histogram(d, o.obs[j].h, d.x, o.obs[j].digx)
                          : j \in DOMAIN o.obs}
              : i \in DOMAIN s.steps}

Verdicts(s) == CASE s.op = "domain" -> DoDomain(s)
                 [] s.op = "bins" -> DoBins(s)
                 [] s.op = "history" -> DoHistory(s)
                 [] s.op = "est" -> DoEst(s)
                 [] s.op = "binarize" -> DoBinarize(s)

Init == c \in 1..Len(Cases) /\ k = 0
Step == /\ k = 0
        /\ LET bad == Verdicts(Cases[c]) IN
           bad # {} => PrintT("BAD|" \o ToJson([case |-> c, step |-> 1, op |-> Cases[c].op, bad |-> bad]))
        /\ k' = 1 /\ UNCHANGED c
Done == k = 1 /\ PrintT("DONE|" \o ToString(c)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
