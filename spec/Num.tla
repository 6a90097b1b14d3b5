-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact integers of any size, and fixed-point reals built on them.        *)
(*                                                                         *)
(* TLC's own integers have 32 bits, which is too little to state what      *)
(* numerical code must compute.  A number here is a record                 *)
(*     [s |-> -1 | 0 | 1,  m |-> <<limb, limb, ...>>]                      *)
(* with limbs of 4 decimal digits, least significant first and no leading  *)
(* zero limb.  A fixed-point real x is represented by the number x*10^12.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL NB == 10000            \* base of the limbs
LOCAL NF == 3               \* limbs after the point: 12 decimal digits

Zero == [s |-> 0, m |-> <<>>]

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0
                 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Mk(s, m) == LET t == Trim(m) IN IF t = <<>> THEN Zero ELSE [s |-> s, m |-> t]

RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % NB>> \o Limbs(n \div NB)

\* A TLC integer as a number.
I(n) == IF n = 0 THEN Zero
        ELSE IF n > 0 THEN [s |-> 1, m |-> Limbs(n)]
        ELSE [s |-> -1, m |-> Limbs(-n)]

LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

\* comparison of magnitudes: -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                          ELSE IF a[i] < b[i] THEN -1
                          ELSE IF a[i] > b[i] THEN 1
                          ELSE CmpFrom(a, b, i - 1)
LOCAL CmpM(a, b) == IF Len(a) < Len(b) THEN -1
                    ELSE IF Len(a) > Len(b) THEN 1
                    ELSE CmpFrom(a, b, Len(a))

RECURSIVE AddM(_, _, _, _, _)
AddM(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b)
    THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET t == At(a, i) + At(b, i) + c
         IN AddM(a, b, i + 1, t \div NB, Append(acc, t % NB))

\* a - b for magnitudes with a >= b
RECURSIVE SubM(_, _, _, _, _)
SubM(a, b, i, c, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET t == a[i] - At(b, i) - c
         IN IF t < 0 THEN SubM(a, b, i + 1, 1, Append(acc, t + NB))
            ELSE SubM(a, b, i + 1, 0, Append(acc, t))

RECURSIVE Col(_, _, _, _, _)
Col(a, b, k, i, hi) ==        \* sum of a[i]*b[k-i+1]
    IF i > hi THEN 0 ELSE a[i] * b[k - i + 1] + Col(a, b, k, i + 1, hi)

RECURSIVE MulM(_, _, _, _, _)
MulM(a, b, k, c, acc) ==
    IF k > Len(a) + Len(b) - 1
    THEN acc \o Limbs(c)
    ELSE LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
             hi == IF k > Len(a) THEN Len(a) ELSE k
             t == Col(a, b, k, lo, hi) + c
         IN MulM(a, b, k + 1, t \div NB, Append(acc, t % NB))

Neg(a) == [a EXCEPT !.s = -a.s]
Abs(a) == [a EXCEPT !.s = a.s * a.s]

Add(a, b) ==
    IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
    ELSE IF a.s = b.s THEN [s |-> a.s, m |-> AddM(a.m, b.m, 1, 0, <<>>)]
    ELSE LET c == CmpM(a.m, b.m)
         IN IF c = 0 THEN Zero
            ELSE IF c > 0 THEN Mk(a.s, SubM(a.m, b.m, 1, 0, <<>>))
            ELSE Mk(b.s, SubM(b.m, a.m, 1, 0, <<>>))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Zero
             ELSE Mk(a.s * b.s, MulM(a.m, b.m, 1, 0, <<>>))
Cmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
             ELSE IF a.s = 0 THEN 0 ELSE a.s * CmpM(a.m, b.m)
Leq(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
Eq(a, b) == Cmp(a, b) = 0

\* division of a magnitude by a small TLC integer d < 200000, towards zero
RECURSIVE DivS(_, _, _, _, _)
DivS(m, d, i, r, acc) ==
    IF i = 0 THEN acc
    ELSE LET t == r * NB + m[i]
         IN DivS(m, d, i - 1, t % d, <<t \div d>> \o acc)
DivInt(a, d) == IF a.s = 0 THEN Zero
                ELSE Mk(IF d < 0 THEN -a.s ELSE a.s,
                        DivS(a.m, IF d < 0 THEN -d ELSE d, Len(a.m), 0, <<>>))
MulInt(a, n) == Mul(a, I(n))

RECURSIVE SumSeq(_, _)
SumSeq(q, i) == IF i > Len(q) THEN Zero ELSE Add(q[i], SumSeq(q, i + 1))
Sum(q) == SumSeq(q, 1)
RECURSIVE MaxSeqFrom(_, _, _)
MaxSeqFrom(q, i, b) == IF i > Len(q) THEN b
                       ELSE MaxSeqFrom(q, i + 1, IF Lt(b, q[i]) THEN q[i] ELSE b)

----------------------------------------------------------------------------
(* Fixed-point reals: x is stored as x * 10^12.                            *)
LOCAL Drop(m) == IF Len(m) <= NF THEN <<>> ELSE SubSeq(m, NF + 1, Len(m))
One == [s |-> 1, m |-> <<0, 0, 0, 1>>]
FMul(a, b) == LET p == Mul(a, b) IN IF p.s = 0 THEN Zero ELSE Mk(p.s, Drop(p.m))
\* a TLC integer as a fixed-point real
FI(n) == IF n = 0 THEN Zero ELSE LET x == I(n) IN [s |-> x.s, m |-> <<0, 0, 0>> \o x.m]
\* the rational n/d (TLC integers, 0 < d < 200000)
FQ(n, d) == DivInt(FI(n), d)
FSq(a) == FMul(a, a)
\* an integer number (not yet a fixed-point real) as a fixed-point real
Fix(a) == IF a.s = 0 THEN Zero ELSE [s |-> a.s, m |-> <<0, 0, 0>> \o a.m]

\* 10^-k as a fixed-point real, 0 <= k <= 12
LOCAL Pow10 == <<1, 10, 100, 1000>>
Eps(k) == LET e == 12 - k IN
          [s |-> 1, m |-> [i \in 1..(e \div 4) |-> 0] \o <<Pow10[(e % 4) + 1]>>]

\* |a - b| <= tol * (1 + |b|)
Near(a, b, tol) == Leq(Abs(Sub(a, b)), FMul(tol, Add(One, Abs(b))))
NearAbs(a, b, tol) == Leq(Abs(Sub(a, b)), tol)

\* quotient of fixed-point reals by Newton-free long division (schoolbook):
\* multiply-and-check is used instead wherever possible.
\* exponential function: argument halved h times, Taylor, then squared h times
RECURSIVE Taylor(_, _, _, _)
Taylor(x, t, k, n) ==      \* sum of x^j/j! from j = k; t = x^(k-1)/(k-1)!
    IF k > n THEN Zero
    ELSE LET u == DivInt(FMul(t, x), k) IN
         IF u.s = 0 THEN Zero ELSE Add(u, Taylor(x, u, k + 1, n))
RECURSIVE Halve(_, _)
Halve(x, h) == IF h = 0 THEN x ELSE Halve(DivInt(x, 2), h - 1)
RECURSIVE SqN(_, _)
SqN(x, h) == IF h = 0 THEN x ELSE SqN(FSq(x), h - 1)
Exp(x) == SqN(Add(One, Taylor(Halve(x, 5), One, 1, 20)), 5)
=============================================================================
