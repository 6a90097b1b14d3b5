------------------------------ MODULE FactorRun -----------------------------
(***************************************************************************)
(* Fitting of a factor model as a walk of an optimizer: events arrive, the *)
(* optimizer moves from point to point in the space of parameters, and at  *)
(* every point the gradient is accumulated event by event, as code that    *)
(* scatters additions into arrays has to.  The accumulated gradient must   *)
(* be the one of Factor, which must be the exact derivative of the         *)
(* objective: the squared objective is quadratic in every coordinate, so   *)
(* its central difference is the derivative, without error (C10, C12).     *)
(***************************************************************************)
EXTENDS Factor, TLC, Json

CONSTANTS NU, NI, KD,    \* users, items, factors
          Scores, MaxEv, \* scores and number of events
          Moves,         \* number of moves of the optimizer
          C8,            \* regularization in units of 1/8
          Flaws, Emit

VARIABLES ev,            \* events <<user, item, score>>
          par, moves,    \* where the optimizer is
          phase
vars == <<ev, par, moves, phase>>

C == FQ(C8, 8)
ZeroPar == [mu |-> Zero, bu |-> [u \in 1..NU |-> Zero], bi |-> [i \in 1..NI |-> Zero],
            p |-> [u \in 1..NU |-> [j \in 1..KD |-> Zero]], q |-> [i \in 1..NI |-> [j \in 1..KD |-> Zero]]]
Coords == {<<"mu", 1, 1>>} \cup ({"bu"} \X (1..NU) \X {1}) \cup ({"bi"} \X (1..NI) \X {1})
          \cup ({"p"} \X (1..NU) \X (1..KD)) \cup ({"q"} \X (1..NI) \X (1..KD))
Plus(P, c, d) == CASE c[1] = "mu" -> [P EXCEPT !.mu = Add(@, d)]
                   [] c[1] = "bu" -> [P EXCEPT !.bu[c[2]] = Add(@, d)]
                   [] c[1] = "bi" -> [P EXCEPT !.bi[c[2]] = Add(@, d)]
                   [] c[1] = "p" -> [P EXCEPT !.p[c[2]][c[3]] = Add(@, d)]
                   [] OTHER -> [P EXCEPT !.q[c[2]][c[3]] = Add(@, d)]
At(P, c) == CASE c[1] = "mu" -> P.mu [] c[1] = "bu" -> P.bu[c[2]] [] c[1] = "bi" -> P.bi[c[2]]
              [] c[1] = "p" -> P.p[c[2]][c[3]] [] OTHER -> P.q[c[2]][c[3]]

Terms == [t \in DOMAIN ev |-> <<ev[t][1], ev[t][2], FI(ev[t][3])>>]
F(P) == Objective("pmf", P, Terms, KD, C, <<>>)
G(P) == Gradient(P, Terms, KD, C, Delta("pmf", P, Terms, KD, <<>>))

\* the algorithm: start from the regularization and add the part of every event
Reg0(P) == [mu |-> IF "regmean" \in Flaws THEN FMul(C, P.mu) ELSE Zero,
            bu |-> [u \in 1..NU |-> FMul(C, P.bu[u])],
            bi |-> [i \in 1..NI |-> FMul(C, P.bi[i])],
            p |-> [u \in 1..NU |-> [j \in 1..KD |-> FMul(C, P.p[u][j])]],
            q |-> [i \in 1..NI |-> [j \in 1..KD |-> FMul(C, P.q[i][j])]]]
RECURSIVE Scatter(_, _, _)
Part(P, t, D, A) ==
    LET u == Terms[t][1]  i == Terms[t][2]
        \* assignment through repeated indexes keeps the last addition only
        base(x, z) == IF "lastevent" \in Flaws /\ \E s \in 1..(t - 1) : Terms[s][1] = u THEN z ELSE x
        R == IF "lastevent" \in Flaws THEN Reg0(P) ELSE A
    IN [A EXCEPT !.mu = Add(@, D[t]),
                 !.bu[u] = Add(base(@, R.bu[u]), D[t]),
                 !.bi[i] = Add(@, D[t]),
                 !.p[u] = [j \in 1..KD |-> Add(@[j], FMul(D[t], P.q[i][j]))],
                 !.q[i] = [j \in 1..KD |-> Add(@[j], FMul(D[t], IF "qq" \in Flaws THEN P.q[i][j] ELSE P.p[u][j]))]]
Scatter(P, t, D) == IF t = 0 THEN Reg0(P) ELSE Part(P, t, D, Scatter(P, t - 1, D))

Init == ev = <<>> /\ par = ZeroPar /\ moves = 0 /\ phase = "data"
Observe == /\ phase = "data" /\ Len(ev) < MaxEv
           /\ \E u \in 1..NU, i \in 1..NI, s \in Scores : ev' = Append(ev, <<u, i, s>>)
           /\ UNCHANGED <<par, moves, phase>>
Start == /\ phase = "data" /\ Len(ev) > 0 /\ phase' = "opt" /\ UNCHANGED <<ev, par, moves>>
Move == /\ phase = "opt" /\ moves < Moves
        /\ \E c \in Coords, d \in {FI(1), FI(-2)} : par' = Plus(par, c, d)
        /\ moves' = moves + 1 /\ UNCHANGED <<ev, phase>>
Show == /\ phase = "opt" /\ moves = Moves
        /\ Emit => PrintT("HIST|" \o ToJson([ev |-> ev]))
        /\ UNCHANGED vars
Next == Observe \/ Start \/ Move \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Optimizing == phase = "opt"
Derivative == Optimizing => LET g == G(par) IN \A c \in Coords :
                 Eq(MulInt(At(g, c), 2), Sub(F(Plus(par, c, One)), F(Plus(par, c, Neg(One)))))
Accumulated == Optimizing => Scatter(par, Len(ev), Delta("pmf", par, Terms, KD, <<>>)) = G(par)
Positive0 == Optimizing => F(par).s >= 0
\* the order of events does not matter
Rev == [t \in DOMAIN ev |-> Terms[Len(ev) + 1 - t]]
Unordered == Optimizing => /\ Objective("pmf", par, Rev, KD, C, <<>>) = F(par)
                           /\ Gradient(par, Rev, KD, C, Delta("pmf", par, Rev, KD, <<>>)) = G(par)
\* a factorization is symmetric in users and items
Swapped == [mu |-> par.mu, bu |-> par.bi, bi |-> par.bu, p |-> par.q, q |-> par.p]
SwapT == [t \in DOMAIN ev |-> <<Terms[t][2], Terms[t][1], Terms[t][3]>>]
Symmetric == Optimizing => LET g == G(par)
                               h == Gradient(Swapped, SwapT, KD, C, Delta("pmf", Swapped, SwapT, KD, <<>>))
                           IN h = [mu |-> g.mu, bu |-> g.bi, bi |-> g.bu, p |-> g.q, q |-> g.p]
\* unknown objects are predicted by what is known of the other one
Neutral == Optimizing => /\ Raw(par, 0, 0, KD) = par.mu
                         /\ \A u \in 1..NU : Raw(par, u, 0, KD) = Add(par.mu, par.bu[u])
                         /\ \A i \in 1..NI : Raw(par, 0, i, KD) = Add(par.mu, par.bi[i])
\* implicit feedback has a term for every pair, once
AllPairs == LET Q == Pairs(NU, NI) IN
            /\ Len(Q) = NU * NI
            /\ {Q[t] : t \in DOMAIN Q} = (1..NU) \X (1..NI)
            /\ \A u \in 1..NU, i \in 1..NI : Positive(ev, u, i) = (\E t \in DOMAIN ev : <<ev[t][1], ev[t][2]>> = <<u, i>>)
=============================================================================
