----------------------------- MODULE ScalarTrace -----------------------------
(* Validates results of nytl/math.hpp.  Large numbers are digits in base B.   *)
EXTENDS Scalar, TraceBase
TraceInit == l = 1
X == Rec.x
Op(o) ==
  CASE o = "map" -> IsMapped(Rec.s, Rec.m, X)
    [] o = "unmap" -> IsMapped(Rec.s, Rec.m, X)
    \* runs of consecutive small numbers
    [] o = "mapall" -> \A i \in DOMAIN X : X[i] = Map(Rec.from + i - 1)
    [] o = "unmapall" -> \A i \in DOMAIN X : X[i] = Unmap(Rec.from + i - 1)
    [] o = "pair" -> IsPair(Rec.a, Rec.b, X)
    [] o = "pairall" -> \A i \in DOMAIN X : X[i] = Pair(Rec.a, i - 1)
    [] o = "factorial" -> X = Factorial(Rec.n)
    [] o = "clamp" -> X = Clamp(Rec.v, Rec.lo, Rec.hi) /\ Rec.side \in ClampSides(Rec.v, Rec.lo, Rec.hi)
    [] o = "mix" -> X = Mix(Rec.a, Rec.b, Rec.t, Rec.u)
    [] o = "smooth" -> LET r == Smooth(Rec.lo, Rec.hi, Rec.v) IN Near(X, RDiv(Rec.k * r[1], r[2]), 1) /\ X >= 0 /\ X <= Rec.k
                       /\ (r[1] = 0 => X = 0) /\ (r[1] = r[2] => X = Rec.k)
    [] o = "radians" -> Near(X, RDiv(Rec.k * Rec.n * PiN, PiD * 180), Rec.tol)
    [] o = "degrees" -> Near(X, RDiv(Rec.k * Rec.n * PiD * 180, PiN * Rec.d), Rec.tol)
    [] o = "there and back" -> Near(X, Rec.k * Rec.n, Rec.tol)
    \* with the accuracy of double or of the constants (12 digits)
    [] o = "smooth exactly" -> LET n == Rec.n d == Rec.d IN X = n * n * (3 * d - 2 * n)
    [] o = "radians exactly" -> Rec.s = Rec.sn /\ IsRadians(Rec.n, X)
    [] o = "degrees exactly" -> Rec.s = Rec.sn /\ IsDegrees(Rec.n, X)
    [] o = "constant exactly" -> BNear(X, CASE Rec.n = "pi" -> Pi48 [] Rec.n = "e" -> E48 [] Rec.n = "degree" -> Degree48, Digits(4000))
    [] o = "constant" -> Near(X, CASE Rec.n = "pi" -> 314159265 [] Rec.n = "e" -> 271828183 [] Rec.n = "degree" -> 1745329, 1)
TraceNext == Step /\ Op(Rec.op)
=============================================================================
