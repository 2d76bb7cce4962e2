------------------------------- MODULE Fixed -------------------------------
(* Numbers with twenty binary places, and complex numbers of them: products  *)
(* below 2048 of factors below 2048, quotients below 2048, without leaving   *)
(* 32 bits.  Errors of some units in the last place.                         *)
EXTENDS Integers
One == 1048576
Half == 524288
F(n, d) == (n * One) \div d                 \* n / d for |n| < 2048
MulP(a, b) == LET a1 == a \div 1024  a0 == a % 1024  b1 == b \div 1024  b0 == b % 1024
              IN (a1 * b1) + (((a1 * b0) + (a0 * b1) + ((a0 * b0) \div 1024)) \div 1024)
Abs(x) == IF x < 0 THEN -x ELSE x
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulP(Abs(a), Abs(b)) ELSE -MulP(Abs(a), Abs(b))
Sq(a) == MulP(Abs(a), Abs(a))
RECURSIVE Bits(_, _, _, _)
Bits(q, r, b, n) == IF n = 0 THEN q ELSE IF 2 * r >= b THEN Bits((2 * q) + 1, (2 * r) - b, b, n - 1) ELSE Bits(2 * q, 2 * r, b, n - 1)
\* five places at a time where 32 r is in reach
RECURSIVE Places(_, _, _, _)
Places(q, r, b, n) == IF n = 0 THEN q ELSE LET t == 32 * r IN Places((32 * q) + (t \div b), t % b, b, n - 1)
DivP(a, b) == IF b < 67108864 THEN Places(a \div b, a % b, b, 4) ELSE Bits(a \div b, a % b, b, 20)
Div(a, b) == IF (a < 0) = (b < 0) THEN DivP(Abs(a), Abs(b)) ELSE -DivP(Abs(a), Abs(b))
RECURSIVE Root(_, _)
Root(a, x) == LET y == (x + DivP(a, x)) \div 2 IN IF Abs(y - x) <= 1 THEN y ELSE Root(a, y)
Sqrt(a) == IF a = 0 THEN 0 ELSE Root(a, (a + One) \div 2)     \* Newton

\* complex numbers
CR(a) == <<a, 0>>
CI(a) == <<0, a>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<Mul(a[1], b[1]) - Mul(a[2], b[2]), Mul(a[1], b[2]) + Mul(a[2], b[1])>>
CScale(a, x) == <<Mul(a[1], x), Mul(a[2], x)>>
CAbs2(a) == Sq(a[1]) + Sq(a[2])
CDiv(a, b) == LET n == CAbs2(b)  p == CMul(a, <<b[1], -b[2]>>) IN <<Div(p[1], n), Div(p[2], n)>>
============================================================================
