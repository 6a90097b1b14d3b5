------------------------------ MODULE NumCheck ------------------------------
(***************************************************************************)
(* The arithmetic of Num, on which every numerical verdict rests, checked  *)
(* against TLC's integers and against the laws of the operations.          *)
(***************************************************************************)
EXTENDS Num, TLC

CONSTANTS Small          \* integers whose products TLC can represent
VARIABLES a, b
vars == <<a, b>>

Cases == Small \cup {-x : x \in Small}
Init == a \in Cases /\ b \in Cases
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Canonical(x) == /\ x.s \in {-1, 0, 1} /\ (x.s = 0) = (x.m = <<>>)
                /\ \A i \in DOMAIN x.m : x.m[i] \in 0..9999
                /\ x.m # <<>> => x.m[Len(x.m)] # 0
Trunc(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)
Ring == /\ Add(I(a), I(b)) = I(a + b)
        /\ Sub(I(a), I(b)) = I(a - b)
        /\ (a < 46000 /\ a > -46000 /\ b < 46000 /\ b > -46000) => Mul(I(a), I(b)) = I(a * b)
        /\ Canonical(I(a)) /\ Canonical(Mul(I(a), I(b)))
        /\ Abs(I(a)) = I(IF a < 0 THEN -a ELSE a) /\ Neg(I(a)) = I(-a)
Order == /\ Leq(I(a), I(b)) = (a <= b) /\ Lt(I(a), I(b)) = (a < b) /\ Eq(I(a), I(b)) = (a = b)
Division == (b > 0 /\ b < 200000) => DivInt(I(a), b) = I(Trunc(a, b))
\* laws on numbers that TLC cannot represent
Big(x) == Add(Mul(Mul(I(x), I(x)), I(x)), I(7 * (x % 1000) + 1))
Laws == LET x == Big(a)  y == Big(b)  z == Big(a + 1) IN
        /\ Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
        /\ Mul(x, Add(y, z)) = Add(Mul(x, y), Mul(x, z))
        /\ Add(Sub(x, y), y) = x
        /\ Cmp(x, y) = -Cmp(y, x) /\ (Cmp(x, y) = 0) = (x = y)
        /\ (b > 0 /\ b < 200000) =>
             LET q == DivInt(Abs(x), b) IN
             Leq(MulInt(q, b), Abs(x)) /\ Lt(Abs(x), MulInt(Add(q, I(1)), b))
Fixed == /\ FMul(FI(a), FI(b)) = Fix(Mul(I(a), I(b)))
         /\ (b > 0 /\ b < 200000) => NearAbs(MulInt(FQ(a, b), b), FI(a), MulInt(Eps(12), b))
         /\ FSq(FI(a)) = Fix(Mul(I(a), I(a)))
\* the exponential function: a homomorphism with the right slope
Exponential == (a \in -12..12 /\ b \in -12..12) =>
    LET x == FQ(a, 8)  y == FQ(b, 8) IN
    /\ Near(FMul(Exp(x), Exp(y)), Exp(Add(x, y)), Eps(9))
    /\ (a < b) => Lt(Exp(x), Exp(y))
    /\ Leq(Add(One, x), Add(Exp(x), Eps(9)))
Euler == Near(Exp(One), Add(FI(2), FQ(71828, 100000)), Eps(4))
=============================================================================
