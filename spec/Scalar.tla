------------------------------ MODULE Scalar ------------------------------
(* Scalar functions (property C19).  Natural numbers that TLC cannot         *)
(* represent are little-endian sequences of digits in base B.                *)
EXTENDS Integers, Sequences
CONSTANT B
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Near(x, y, tol) == Abs(x - y) <= tol
RDiv(a, b) == (2 * a + b) \div (2 * b)
---------------------------------------------------------------------------
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Digits(n \div B)
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Strip(_)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN Digits(c)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
BAdd(a, b) == Strip(AddFrom(a, b, 1, 0))
RECURSIVE DigitMul(_, _, _, _)
DigitMul(a, d, i, c) == IF i > Len(a) THEN Digits(c) ELSE LET s == a[i] * d + c IN <<s % B>> \o DigitMul(a, d, i + 1, s \div B)
RECURSIVE BMul(_, _)
BMul(a, b) == IF b = <<>> THEN <<>> ELSE BAdd(DigitMul(a, b[1], 1, 0), Strip(<<0>> \o BMul(a, Tail(b))))
BOne == <<1>>
---------------------------------------------------------------------------
\* signed numbers: sign (-1, 0, 1) and magnitude
\* u is the unsigned number for the signed one: 0, -1, 1, -2, 2, ... -> 0, 1, 2, 3, 4, ...
IsMapped(s, m, u) == IF s >= 0 THEN u = BMul(m, <<2>>) ELSE BAdd(u, BOne) = BMul(m, <<2>>)
Map(x) == IF x >= 0 THEN 2 * x ELSE -2 * x - 1
Unmap(u) == IF u % 2 = 0 THEN u \div 2 ELSE -((u + 1) \div 2)
\* Cantor's pairing function: 2 p = (x + y)(x + y + 1) + 2 y
IsPair(x, y, p) == LET s == BAdd(x, y) IN BMul(<<2>>, p) = BAdd(BMul(s, BAdd(s, BOne)), BMul(<<2>>, y))
Pair(x, y) == ((x + y) * (x + y + 1)) \div 2 + y
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN BOne ELSE BMul(Factorial(n - 1), Digits(n))
\* limited value and where it was limited; on the bound itself it may be said to be or not
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
ClampSides(v, lo, hi) == IF v < lo THEN {-1} ELSE IF v > hi THEN {1} ELSE {0} \union (IF v = lo THEN {-1} ELSE {}) \union (IF v = hi THEN {1} ELSE {})
\* a in units of 1/u: result in units of 1/u of those of x and y
Mix(x, y, a, u) == (u - a) * x + a * y
\* ratio <<a, b>>
Smooth(lo, hi, x) == LET d == hi - lo n == Clamp(x - lo, 0, d) IN <<n * n * (3 * d - 2 * n), d * d * d>>
\* naturals in digits: a <= b, |a - b| <= t
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == i = 0 \/ Dig(a, i) < Dig(b, i) \/ (Dig(a, i) = Dig(b, i) /\ LeqFrom(a, b, i - 1))
BLeq(a, b) == LeqFrom(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
BNear(a, b, t) == BLeq(a, BAdd(b, t)) /\ BLeq(b, BAdd(a, t))
\* numbers in units of 2^-48 (for B = 4096)
Pi48 == <<1443, 2184, 3946, 579, 3>>
E48 == <<2797, 1576, 337, 2942, 2>>
Degree48 == <<1191, 2697, 2001, 71>>
One48 == <<0, 0, 0, 0, 1>>
\* r: n degrees as radians, d: n radians as degrees (naturals, units of 2^-48), with the accuracy of the constants (12 digits)
IsRadians(n, r) == BNear(BMul(<<180>>, r), BMul(Digits(n), Pi48), Digits(2880 + 100 * n))
IsDegrees(n, d) == BNear(BMul(d, Pi48), BMul(Digits(180 * n), BMul(One48, One48)), BMul(Digits(2000 + 1700 * n), Pi48))
\* pi as ratio
PiN == 355
PiD == 113
=============================================================================
