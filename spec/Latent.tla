-------------------------------- MODULE Latent --------------------------------
(***************************************************************************)
(* The three-way latent class model: users, items and score levels are     *)
(* independent given a latent class.                                       *)
(*                                                                         *)
(* Parameters are a record [z, x, y, r] of probabilities scaled by 10^24:  *)
(* z[k], and x[u][k], y[i][k], r[l][k] of user u, item i, level l given    *)
(* class k.  An event is <<user row, item row, level>>.  Posteriors and    *)
(* other quotients are given as witnesses and checked by multiplication.   *)
(***************************************************************************)
EXTENDS Num, FiniteSets

\* 10^n
P10(n) == LET h == <<1, 10, 100, 1000>> IN
          [s |-> 1, m |-> [i \in 1..(n \div 4) |-> 0] \o <<h[(n % 4) + 1]>>]
LOCAL NP == 24
Unit == P10(NP)

SumOver(n, f(_)) == LET F[i \in 0..n] == IF i = 0 THEN Zero ELSE Add(F[i - 1], f(i)) IN F[n]
\* |a - b| <= 10^-d * u, for numbers of the same scale, u a number of that scale
Within(a, b, u, d) == Leq(Mul(Abs(Sub(a, b)), P10(d)), Abs(u))

\* a distribution: not negative and sums to one
Distribution(v) == /\ \A j \in DOMAIN v : v[j].s >= 0
                   /\ Within(SumOver(Len(v), LAMBDA j : v[j]), Unit, Unit, 11)
Column(M, k) == [j \in DOMAIN M |-> M[j][k]]
Proper(th, K) ==
    /\ Distribution(th.z)
    /\ \A k \in 1..K : Distribution(Column(th.x, k)) /\ Distribution(Column(th.y, k)) /\ Distribution(Column(th.r, k))
Shaped(th, nu, ni, nl, K) ==
    /\ Len(th.z) = K /\ Len(th.x) = nu /\ Len(th.y) = ni /\ Len(th.r) = nl
    /\ \A u \in DOMAIN th.x : Len(th.x[u]) = K
    /\ \A i \in DOMAIN th.y : Len(th.y[i]) = K
    /\ \A l \in DOMAIN th.r : Len(th.r[l]) = K

\* joint probability of class k and event (scale 10^96); row 0 is an unknown object, which
\* tells nothing about the class
Px(M, u, k) == IF u = 0 THEN Unit ELSE M[u][k]
Joint(th, u, i, l, k) == Mul(Mul(th.z[k], th.r[l][k]), Mul(Px(th.x, u, k), Px(th.y, i, k)))
Prob(th, u, i, l, K) == SumOver(K, LAMBDA k : Joint(th, u, i, l, k))

\* expectation step: q[e][k], scaled by 10^24, is the posterior of the classes of event e
Posterior(th, T, K, q) ==
    \A e \in DOMAIN T :
        LET p == Prob(th, T[e][1], T[e][2], T[e][3], K)
        IN \A k \in 1..K :
              Within(Mul(q[e][k], p), Mul(Unit, Joint(th, T[e][1], T[e][2], T[e][3], k)), Mul(Unit, p), 10)
\* maximization step with Laplace smoothing by al (scaled by 10^24).  The row j of a
\* distribution over n values in column a of the events
Mass(T, K, q, a, j, k) == SumOver(Len(T), LAMBDA e : IF T[e][a] = j THEN q[e][k] ELSE Zero)
Smoothed(M, T, K, q, al, a) ==
    \A k \in 1..K :
        LET tot == Add(SumOver(Len(T), LAMBDA e : q[e][k]), MulInt(al, Len(M)))
        IN \A j \in DOMAIN M :
              Within(Mul(M[j][k], tot), Mul(Unit, Add(Mass(T, K, q, a, j, k), al)), Mul(Unit, Add(Unit, tot)), 10)
Maximized(th, T, K, q, al) ==
    /\ Smoothed(th.x, T, K, q, al, 1)
    /\ Smoothed(th.y, T, K, q, al, 2)
    /\ Smoothed(th.r, T, K, q, al, 3)
    /\ LET tot == Add(MulInt(Unit, Len(T)), MulInt(al, K)) IN
       \A k \in 1..K : Within(Mul(th.z[k], tot), Mul(Unit, Add(SumOver(Len(T), LAMBDA e : q[e][k]), al)),
                              Mul(Unit, Add(Unit, tot)), 10)
EMStep(th, th2, T, K, al, q) == Posterior(th, T, K, q) /\ Maximized(th2, T, K, q, al)

\* negative log-likelihood per event; w[e] is a witness of the one of event e
LossWitness(th, T, K, w) ==
    \A e \in DOMAIN T :
        Within(Mul(Exp(w[e]), Prob(th, T[e][1], T[e][2], T[e][3], K)), P10(4 * NP + 12), P10(4 * NP + 12), 9)
Loss(T, w) == DivInt(SumOver(Len(T), LAMBDA e : w[e]), Len(T))

\* Given a user and an item of (nearly) no probability under every class nothing can be
\* predicted.  With smoothing this does not occur.
Likely(s) == Leq(P10(4 * NP - 10), s)
\* predictions: levels lev[l] are fixed-point reals
ExpectedIs(th, u, i, K, lev, v) ==
    LET p == [l \in DOMAIN lev |-> Prob(th, u, i, l, K)]
        s == SumOver(Len(lev), LAMBDA l : p[l])
        m == SumOver(Len(lev), LAMBDA l : Mul(p[l], lev[l]))
        a == SumOver(Len(lev), LAMBDA l : Mul(p[l], Add(One, Abs(lev[l]))))
    IN ~Likely(s) \/ Within(Mul(v, s), m, a, 9)
ModeIs(th, u, i, K, lev, v) ==
    LET p == [l \in DOMAIN lev |-> Prob(th, u, i, l, K)]
        s == SumOver(Len(lev), LAMBDA l : p[l])
    IN ~Likely(s) \/ \E l \in DOMAIN lev :
          /\ Near(v, lev[l], Eps(9))
          /\ \A o \in DOMAIN lev : Leq(Sub(p[o], p[l]), Zero) \/ Within(p[o], p[l], s, 10)
=============================================================================
