-------------------------------- MODULE Factor --------------------------------
(***************************************************************************)
(* Factor models: predictions, objectives and their derivatives.           *)
(*                                                                         *)
(* Parameters are records [mu, bu, bi, p, q] of fixed-point reals: bu and  *)
(* bi have one entry per known user and item, p and q one row of k reals.  *)
(* A term of the objective is <<user row, item row, target>>.              *)
(***************************************************************************)
EXTENDS Num, FiniteSets

Half(a) == DivInt(a, 2)
SumOver(n, f(_)) == LET F[i \in 0..n] == IF i = 0 THEN Zero ELSE Add(F[i - 1], f(i)) IN F[n]

\* bias and factors of row u; row 0 stands for an unknown object and is neutral
Bias(b, u) == IF u = 0 THEN Zero ELSE b[u]
Inner(P, u, i, k) == IF u = 0 \/ i = 0 THEN Zero ELSE SumOver(k, LAMBDA j : FMul(P.p[u][j], P.q[i][j]))
Raw(P, u, i, k) == Add(Add(P.mu, Bias(P.bu, u)), Add(Bias(P.bi, i), Inner(P, u, i, k)))

Norm2(v) == SumOver(Len(v), LAMBDA j : FSq(v[j]))
\* the global bias is not regularized
Reg(P) == Add(Add(Norm2(P.bu), Norm2(P.bi)),
              Add(SumOver(Len(P.p), LAMBDA u : Norm2(P.p[u])), SumOver(Len(P.q), LAMBDA i : Norm2(P.q[i]))))
Penalty(P, C) == Half(FMul(C, Reg(P)))

\* terms: all training events, or every pair of a known user and item
Pairs(nu, ni) == [t \in 1..(nu * ni) |-> <<((t - 1) \div ni) + 1, ((t - 1) % ni) + 1>>]
Positive(ev, u, i) == \E t \in DOMAIN ev : ev[t][1] = u /\ ev[t][2] = i

\* squared loss
SquaredLoss(P, T, k) == Half(SumOver(Len(T), LAMBDA t : FSq(Sub(T[t][3], Raw(P, T[t][1], T[t][2], k)))))

\* Cross entropy.  The loss of a term is softplus(-z) for target 1 and softplus(z) for
\* target 0, where softplus(x) = log(1 + exp(x)).  A witness w = <<l, s>> of a term is
\* correct if l is its loss and s is its sigmoid.
ETol == Eps(9)
\* x = 1/d to within tol, for d >= 1
IsInverse(x, d, tol) == Leq(Abs(Sub(FMul(x, d), One)), FMul(tol, d))
WitnessOk(z, y, w) ==
    LET e == Exp(Neg(z))                 \* exp(-z)
        d == Add(One, e)                 \* 1/sigmoid
        \* loss for 1: exp(l) = 1 + exp(-z); for 0: exp(l) = (1 + exp(-z)) exp(z)
        x == IF y = One THEN Exp(w[1]) ELSE Exp(Sub(w[1], z))
    IN Near(x, d, ETol) /\ IsInverse(w[2], d, ETol)

\* derivative of the loss of a term by the raw prediction
\* (sigmoid - target for the cross entropy, prediction - target for the squared loss)
Delta(model, P, T, k, W) ==
    [t \in DOMAIN T |-> Sub(IF model = "pmf" THEN Raw(P, T[t][1], T[t][2], k) ELSE W[t][2], T[t][3])]
DataLoss(model, P, T, k, W) ==
    IF model = "pmf" THEN SquaredLoss(P, T, k) ELSE SumOver(Len(T), LAMBDA t : W[t][1])
Objective(model, P, T, k, C, W) == Add(DataLoss(model, P, T, k, W), Penalty(P, C))

\* the exact gradient, of the same shape as the parameters
Gradient(P, T, k, C, D) ==
    [mu |-> SumOver(Len(T), LAMBDA t : D[t]),
     bu |-> [u \in DOMAIN P.bu |->
               Add(FMul(C, P.bu[u]), SumOver(Len(T), LAMBDA t : IF T[t][1] = u THEN D[t] ELSE Zero))],
     bi |-> [i \in DOMAIN P.bi |->
               Add(FMul(C, P.bi[i]), SumOver(Len(T), LAMBDA t : IF T[t][2] = i THEN D[t] ELSE Zero))],
     p |-> [u \in DOMAIN P.p |-> [j \in 1..k |->
               Add(FMul(C, P.p[u][j]),
                   SumOver(Len(T), LAMBDA t : IF T[t][1] = u THEN FMul(D[t], P.q[T[t][2]][j]) ELSE Zero))]],
     q |-> [i \in DOMAIN P.q |-> [j \in 1..k |->
               Add(FMul(C, P.q[i][j]),
                   SumOver(Len(T), LAMBDA t : IF T[t][2] = i THEN FMul(D[t], P.p[T[t][1]][j]) ELSE Zero))]]]

\* Data of many users and items, with 0/1 targets, at a point where the raw prediction is the
\* same everywhere: the global bias is z, the first factor of every user is f, and all
\* other parameters are zero.  R[t] is the pair of rows of event t and Y[t] tells whether its
\* target is 1.  Sums over terms are then counts; w0 and w1 are witnesses of the two targets.
Counts(model, R, Y, nu, ni) ==
    IF model = "imp"
    THEN LET S == {R[t] : t \in DOMAIN R} IN
         [n |-> nu * ni, pos |-> Cardinality(S), nu |-> [u \in 1..nu |-> ni], ni |-> [i \in 1..ni |-> nu],
          pu |-> [u \in 1..nu |-> Cardinality({x \in S : x[1] = u})],
          pi |-> [i \in 1..ni |-> Cardinality({x \in S : x[2] = i})]]
    ELSE LET A == DOMAIN R
             B == {t \in A : Y[t]}
         IN [n |-> Cardinality(A), pos |-> Cardinality(B),
             nu |-> [u \in 1..nu |-> Cardinality({t \in A : R[t][1] = u})],
             ni |-> [i \in 1..ni |-> Cardinality({t \in A : R[t][2] = i})],
             pu |-> [u \in 1..nu |-> Cardinality({t \in B : R[t][1] = u})],
             pi |-> [i \in 1..ni |-> Cardinality({t \in B : R[t][2] = i})]]
WideObjective(model, N, z, f, nu, C, w0, w1) ==
    Add(IF model = "pmf" THEN Half(Add(MulInt(FSq(Sub(One, z)), N.pos), MulInt(FSq(z), N.n - N.pos)))
                         ELSE Add(MulInt(w1[1], N.pos), MulInt(w0[1], N.n - N.pos)),
        Half(FMul(C, MulInt(FSq(f), nu))))
WideGradient(model, N, z, f, nu, ni, k, C, w0) ==
    LET y == IF model = "pmf" THEN z ELSE w0[2]
        D(n, pos) == Sub(MulInt(y, n), FI(pos))
        first(v) == [j \in 1..k |-> IF j = 1 THEN v ELSE Zero]
        g == FMul(C, f)
    IN [mu |-> D(N.n, N.pos), bu |-> [u \in 1..nu |-> D(N.nu[u], N.pu[u])], bi |-> [i \in 1..ni |-> D(N.ni[i], N.pi[i])],
        p |-> [u \in 1..nu |-> first(g)], q |-> [i \in 1..ni |-> first(FMul(f, D(N.ni[i], N.pi[i])))]]

NearVec(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Near(a[j], b[j], tol)
NearPar(A, B, tol) ==
    /\ Near(A.mu, B.mu, tol) /\ NearVec(A.bu, B.bu, tol) /\ NearVec(A.bi, B.bi, tol)
    /\ Len(A.p) = Len(B.p) /\ \A u \in DOMAIN A.p : NearVec(A.p[u], B.p[u], tol)
    /\ Len(A.q) = Len(B.q) /\ \A i \in DOMAIN A.q : NearVec(A.q[i], B.q[i], tol)
Shaped(P, nu, ni, k) ==
    /\ Len(P.bu) = nu /\ Len(P.bi) = ni /\ Len(P.p) = nu /\ Len(P.q) = ni
    /\ \A u \in DOMAIN P.p : Len(P.p[u]) = k
    /\ \A i \in DOMAIN P.q : Len(P.q[i]) = k
=============================================================================
