------------------------------- MODULE Fixed -------------------------------
(* Real functions in fixed-point arithmetic: numbers are multiples of 1/S.  *)
(* Results are accurate to a few units (FixedMC checks the laws).           *)
EXTENDS Integers
S == 8192
Pi == 25736
TwoPi == 51472
HalfPi == 12868
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Near(x, y, tol) == Abs(x - y) <= tol
\* rounded and truncated division
RDiv(a, b) == (2 * a + b) \div (2 * b)
TDiv(a, b) == IF (a >= 0) = (b >= 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
FMul(x, y) == RDiv(x * y, S)
Cos1(x) == LET q == FMul(x, x) IN
  S - RDiv(q * (S - RDiv(q * (S - RDiv(q * (S - RDiv(q * (S - RDiv(q, 90)), 56 * S)), 30 * S)), 12 * S)), 2 * S)
FCos(x) == LET y == x % TwoPi z == IF y > Pi THEN TwoPi - y ELSE y IN
  IF z > HalfPi THEN -Cos1(Pi - z) ELSE Cos1(z)
FSin(x) == FCos(x - HalfPi)
\* for x in -2S .. 2S
RECURSIVE ExpFrom(_, _, _)
ExpFrom(x, t, n) == IF n > 14 THEN 0 ELSE t + ExpFrom(x, RDiv(t * x, S * (n + 1)), n + 1)
FExp(x) == ExpFrom(x, S, 0)
\* floor of the square root
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE Newton(n, n \div 2)
----------------------------------------------------------------------------
\* Wide numbers <<h, l>> stand for (h W + l)/W^2, |l| <= W/2
W == 16384
\* a relation between wide numbers that is linear in them: the same of the high and of the low
\* parts; the sum is at most tol (in 1/W^2)
WNear(h, l, bound, tol) == Abs(h) <= bound /\ Near(h * W + l, 0, tol)
\* x is a/b
WRatio(x, a, b, tol) == WNear(x[1] * b - a * W, x[2] * b, b, tol * b)
=============================================================================
