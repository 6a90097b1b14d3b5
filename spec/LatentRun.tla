------------------------------ MODULE LatentRun -----------------------------
(***************************************************************************)
(* Expectation maximization as an algorithm: responsibilities are guessed, *)
(* then steps of maximization and expectation alternate.  Quotients are    *)
(* computed to 24 digits by long division.  Every pair of subsequent       *)
(* parameters must be an EM step in the sense of Latent, which is what     *)
(* recorded runs are judged by; distributions stay proper, and without     *)
(* smoothing the likelihood never decreases (C13).                         *)
(***************************************************************************)
EXTENDS Latent, TLC, Json

CONSTANTS NU, NI, NL, K,  \* users, items, levels, classes
          MaxEv, MaxIter,
          Al8,            \* smoothing in units of 1/8
          Guesses,        \* responsibilities of the first class in units of 1/8
          Flaws, Emit

VARIABLES ev, q, th, old, iter
vars == <<ev, q, th, old, iter>>

Al == MulInt(DivInt(Unit, 8), Al8)
\* quotient of magnitudes, rounded down
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) ==           \* the largest d with d b <= r, lo <= d < hi
    IF hi - lo = 1 THEN lo
    ELSE LET mid == (lo + hi) \div 2 IN
         IF Leq(MulInt(b, mid), r) THEN Digit(r, b, mid, hi) ELSE Digit(r, b, lo, mid)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(m, b, i, r, acc) ==
    IF i = 0 THEN acc
    ELSE LET s == Add(Mul(r, I(10000)), I(m[i]))
             d == Digit(s, b, 0, 10000)
         IN LongDiv(m, b, i - 1, Sub(s, MulInt(b, d)), <<d>> \o acc)
Div(a, b) == IF a.s = 0 THEN Zero
             ELSE LET m == LongDiv(a.m, b, Len(a.m), Zero, <<>>) IN
                  LET t == Trim(m) IN IF t = <<>> THEN Zero ELSE [s |-> 1, m |-> t]

\* smoothed share of value j of column a, given class k
Column0(n, a) == [j \in 1..n |-> [k \in 1..K |->
    LET tot == Add(SumOver(Len(ev), LAMBDA e : q[e][k]),
                   MulInt(Al, IF "smoothclasses" \in Flaws THEN K ELSE n))
        mass == IF "once" \in Flaws
                THEN SumOver(Len(ev), LAMBDA e : IF ev[e][a] = j /\ \A f \in 1..(e - 1) : ev[f] # ev[e] THEN q[e][k] ELSE Zero)
                ELSE Mass(ev, K, q, a, j, k)
    IN IF tot.s = 0 THEN Zero ELSE Div(Mul(Add(mass, Al), Unit), tot)]]
Maximize == [z |-> [k \in 1..K |-> Div(Mul(Add(SumOver(Len(ev), LAMBDA e : q[e][k]), Al), Unit),
                                       Add(MulInt(Unit, Len(ev)), MulInt(Al, K)))],
             x |-> Column0(NU, 1), y |-> Column0(NI, 2), r |-> Column0(NL, 3)]
Expect == [e \in DOMAIN ev |-> [k \in 1..K |->
    LET j == Joint(th, ev[e][1], ev[e][2], IF "firstlevel" \in Flaws THEN 1 ELSE ev[e][3], k)
        p == IF "firstlevel" \in Flaws THEN Prob(th, ev[e][1], ev[e][2], 1, K)
             ELSE Prob(th, ev[e][1], ev[e][2], ev[e][3], K)
    IN Div(Mul(Unit, j), p)]]

Guess == LET e8 == DivInt(Unit, 8) IN {[k \in 1..K |-> IF k = 1 THEN MulInt(e8, g) ELSE DivInt(MulInt(e8, 8 - g), K - 1)] : g \in Guesses}
None == [z |-> <<>>]
Init == ev = <<>> /\ q = <<>> /\ th = None /\ old = None /\ iter = 0
Observe == /\ th = None /\ Len(ev) < MaxEv
           /\ \E u \in 1..NU, i \in 1..NI, l \in 1..NL, g \in Guess :
                /\ Emit => g = CHOOSE x \in Guess : TRUE
                /\ ev' = Append(ev, <<u, i, l>>) /\ q' = Append(q, g)
           /\ UNCHANGED <<th, old, iter>>
Begin == /\ th = None /\ Len(ev) > 0 /\ ~Emit /\ th' = Maximize /\ UNCHANGED <<ev, q, old, iter>>
Expectation == /\ th # None /\ iter < MaxIter /\ old # th
               /\ q' = Expect /\ old' = th /\ UNCHANGED <<ev, th, iter>>
Maximization == /\ th # None /\ old = th /\ iter < MaxIter
                /\ th' = Maximize /\ iter' = iter + 1 /\ UNCHANGED <<ev, q, old>>
Show == /\ Emit /\ Len(ev) = MaxEv /\ PrintT("HIST|" \o ToJson([ev |-> ev])) /\ UNCHANGED vars
Next == Observe \/ Begin \/ Expectation \/ Maximization \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Fitted == th # None
ProperAlways == Fitted => /\ Shaped(th, NU, NI, NL, K)
                          /\ (Al8 > 0 \/ \A k \in 1..K : th.z[k].s > 0) => Proper(th, K)
Responsible == \A e \in DOMAIN q : Within(SumOver(K, LAMBDA k : q[e][k]), Unit, Unit, 11)
Steps == [][(iter' > iter) => (/\ Posterior(old, ev, K, q) /\ Maximized(th', ev, K, q, Al)
                               /\ EMStep(old, th', ev, K, Al, q))]_vars
\* likelihood, compared after cutting digits
RECURSIVE Lik(_, _)
Lik(t, e) == IF e = 0 THEN One ELSE FMul(Lik(t, e - 1),
                 DivInt(Prob(t, ev[e][1], ev[e][2], ev[e][3], K), 1))
Ascent == [][(iter' > iter /\ Al8 = 0 /\ \A k \in 1..K : old.z[k].s > 0 /\ th'.z[k].s > 0)
             => LET a == Lik(old, Len(ev))  b == Lik(th', Len(ev)) IN
                Leq(a, Add(b, DivInt(DivInt(b, 100000), 100000)))]_vars
\* the best levels and expectations are within the levels
Lev == [l \in 1..NL |-> FI(l)]
Tot(u, i) == SumOver(NL, LAMBDA l : Prob(th, u, i, l, K))
Mean(u, i) == Div(SumOver(NL, LAMBDA l : Mul(Prob(th, u, i, l, K), Lev[l])), Tot(u, i))
Predicted == (Fitted /\ Al8 > 0 /\ iter = MaxIter) =>
    \A u \in 0..NU, i \in 0..NI :
        /\ ExpectedIs(th, u, i, K, Lev, Mean(u, i))
        /\ \E l \in 1..NL : ModeIs(th, u, i, K, Lev, Lev[l])
        /\ Leq(Lev[1], Add(Mean(u, i), Eps(9))) /\ Leq(Mean(u, i), Add(Lev[NL], Eps(9)))
\* an unknown user is predicted as the mixture over all users would be
NeutralUnknown == (Fitted /\ Al8 > 0 /\ iter = MaxIter) => \A i \in 1..NI, l \in 1..NL :
    LET s == SumOver(NU, LAMBDA u : Prob(th, u, i, l, K)) IN
    Within(s, Prob(th, 0, i, l, K), Prob(th, 0, i, l, K), 10)
=============================================================================
