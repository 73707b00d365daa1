----------------------------- MODULE Quaternion -----------------------------
(* Quaternions <<x, y, z, w>> with integer (or fixed-point) components and   *)
(* the rotations they represent.                                             *)
EXTENDS Integers, Sequences, Fixed
HMul(p, q) == <<
  p[4] * q[1] + p[1] * q[4] + p[2] * q[3] - p[3] * q[2],
  p[4] * q[2] + p[2] * q[4] + p[3] * q[1] - p[1] * q[3],
  p[4] * q[3] + p[3] * q[4] + p[1] * q[2] - p[2] * q[1],
  p[4] * q[4] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3] >>
Conj(q) == <<-q[1], -q[2], -q[3], q[4]>>
Neg(q) == [i \in 1..4 |-> -q[i]]
DotQ(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]
N(q) == DotQ(q, q)
One == <<0, 0, 0, 1>>
RECURSIVE Power(_, _)
Power(q, n) == IF n = 0 THEN One ELSE HMul(q, Power(q, n - 1))
\* the rotation: v -> q v q*, N(q) times as long
Turn(q, v) == LET r == HMul(HMul(q, <<v[1], v[2], v[3], 0>>), Conj(q)) IN <<r[1], r[2], r[3]>>
Unit(j) == [i \in 1..3 |-> IF i = j THEN 1 ELSE 0]
RotN(q) == LET c == [j \in 1..3 |-> Turn(q, Unit(j))] IN [i \in 1..3 |-> [j \in 1..3 |-> c[j][i]]]
MV(m, v) == [i \in 1..3 |-> m[i][1] * v[1] + m[i][2] * v[2] + m[i][3] * v[3]]
MM(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
----------------------------------------------------------------------------
\* fixed-point: rotations given by angles (even multiples of 1/S)
FMM(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> FMul(a[i][1], b[1][j]) + FMul(a[i][2], b[2][j]) + FMul(a[i][3], b[3][j])]]
\* by the angle a around the coordinate axis n: the next axis turns towards the one after it
Around(n, a) == LET m == (n % 3) + 1 p == (m % 3) + 1 IN
  [i \in 1..3 |-> [j \in 1..3 |->
    IF i = n /\ j = n THEN S ELSE IF i = n \/ j = n THEN 0 ELSE
    IF i = j THEN FCos(a) ELSE IF i = p /\ j = m THEN FSin(a) ELSE -FSin(a)]]
\* intrinsic sequence of rotations around the axes s[1], s[2], s[3]
Sequence(s, a) == FMM(Around(s[1], a[1]), FMM(Around(s[2], a[2]), Around(s[3], a[3])))
\* quaternion of the rotation around the axis (x[1], x[2], x[3])/x[4]
AxisAngle(x, a) == LET s == FSin(a \div 2) IN <<RDiv(x[1] * s, x[4]), RDiv(x[2] * s, x[4]), RDiv(x[3] * s, x[4]), FCos(a \div 2)>>
FHMul(p, q) == LET r == HMul(p, q) IN [i \in 1..4 |-> RDiv(r[i], S)]
FRot(q) == LET m == RotN(q) IN [i \in 1..3 |-> [j \in 1..3 |-> RDiv(m[i][j], S)]]
----------------------------------------------------------------------------
\* x is k times the number a/b (b > 0), up to tol
IsRatio(x, a, b, k, tol) == Near(x * b, k * a, tol * b)
\* the matrix m represents the rotation of q, k times enlarged
IsRotation(m, q, k, tol) == LET r == RotN(q) n == N(q) IN \A i, j \in 1..3 : IsRatio(m[i][j], r[i][j], n, k, tol)
\* r is k times the unit quaternion with the direction of u
IsDirection(r, u, k, tol) ==
  /\ DotQ(r, u) > 0
  /\ Near(N(r), k * k, 2 * tol * k)
  /\ \A i, j \in 1..4 : Near(r[i] * u[j], r[j] * u[i], tol * (Abs(u[i]) + Abs(u[j])))
----------------------------------------------------------------------------
\* wide numbers (of double precision): the direction of u, and length one
High(r) == [i \in 1..Len(r) |-> r[i][1]]
Low(r) == [i \in 1..Len(r) |-> r[i][2]]
\* sum of the products of wide numbers (at most 1) is n
WSumProd(r, s, n, tol) ==
  LET f(i) == r[i][1] * s[i][1] g(i) == r[i][1] * s[i][2] + r[i][2] * s[i][1] IN
  CASE Len(r) = 3 -> WNear(f(1) + f(2) + f(3) - n * W * W, g(1) + g(2) + g(3), 60000, tol * W)
    [] Len(r) = 4 -> WNear(f(1) + f(2) + f(3) + f(4) - n * W * W, g(1) + g(2) + g(3) + g(4), 60000, tol * W)
WDirection(r, u, tol) ==
  /\ DotQ(High(r), u) > 0
  /\ WSumProd(r, r, 1, tol)
  /\ \A i, j \in 1..4 : LET t == Abs(u[i]) + Abs(u[j]) IN WNear(r[i][1] * u[j] - r[j][1] * u[i], r[i][2] * u[j] - r[j][2] * u[i], t, tol * t)
WAxis(r, u, tol) == WDirection(r, u, tol) \/ WDirection(r, Neg(u), tol)
WRotation(m, q, tol) == LET r == RotN(q) n == N(q) IN \A i, j \in 1..3 : WRatio(m[i][j], r[i][j], n, tol)
\* rotation by the angle 2 atan(s/w) around the axis (x[1], x[2], x[3])/x[4]
HalfAngle(x, s, w) == <<x[1] * s, x[2] * s, x[3] * s, x[4] * w>>
=============================================================================
