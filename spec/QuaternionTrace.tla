--------------------------- MODULE QuaternionTrace ---------------------------
(* Validates results of nytl/quaternion.hpp.  a, b: integer quaternions, the  *)
(* real ones are these or (n) normalized ones.                                *)
EXTENDS Quaternion, TraceBase
TraceInit == l = 1
A == Rec.a
B == Rec.b
K == Rec.k
X == Rec.x
Op(o) ==
  CASE o = "init" -> X = One
    [] o = "mul" -> X = HMul(A, B)
    [] o = "add" -> X = [i \in 1..4 |-> A[i] + B[i]]
    [] o = "sub" -> X = [i \in 1..4 |-> A[i] - B[i]]
    [] o = "scale" -> X = [i \in 1..4 |-> Rec.f * A[i]]
    [] o = "conj" -> X = Conj(A)
    [] o = "dot" -> X = DotQ(A, B)
    [] o = "norm" -> X >= 0 /\ Near(X * X, K * K * N(A), 2 * X + 2)
    [] o = "normalized" -> IF A = <<0, 0, 0, 0>> THEN X = <<0, 0, 0, K>> ELSE IsDirection(X, A, K, 3)
    [] o = "eq" -> Rec.eq = (A = B) /\ Rec.ne = (A # B)
    \* unit quaternion of a (scaled by 1/h exactly or normalized) applied to v
    [] o = "apply" -> LET t == Turn(A, Rec.v) IN \A i \in 1..3 : IsRatio(X[i], t[i], N(A), K, 1)
    [] o = "apply2" -> LET t == Turn(A, Turn(B, Rec.v)) IN \A i \in 1..3 : IsRatio(X[i], t[i], N(A) * N(B), K, 1)
    [] o = "tomat" -> /\ IsRotation(X, A, K, 1)
                      /\ \A i, j \in 1..Rec.d : (i > 3 \/ j > 3) => X[i][j] = IF i = j THEN K ELSE 0
    [] o = "frommat" -> IsDirection(X, A, K, 3) \/ IsDirection(X, Neg(A), K, 3)
    \* axis and angle: the quaternion, the matrix and the rotated basis
    [] o = "axisangle" -> LET e == AxisAngle(Rec.axis, Rec.angle) r == FRot(e) IN
         /\ \A i \in 1..4 : Near(X[i], e[i], 4)
         /\ \A i, j \in 1..3 : Near(Rec.m[i][j], r[i][j], 8)
    [] o = "yxz" -> LET e == FHMul(AxisAngle(<<0, 1, 0, 1>>, Rec.angles[1]), FHMul(AxisAngle(<<1, 0, 0, 1>>, Rec.angles[2]), AxisAngle(<<0, 0, 1, 1>>, Rec.angles[3]))) IN
         \A i \in 1..4 : Near(X[i], e[i], 8)
    \* angles of the unit quaternion of a, or of the given sequence of angles
    [] o = "euler" -> LET m == Sequence(Rec.seq, X) IN
         IF Rec.given THEN LET g == Sequence(Rec.gseq, Rec.angles) IN \A i, j \in 1..3 : Near(m[i][j], g[i][j], 16)
         ELSE LET r == RotN(A) n == N(A) IN \A i, j \in 1..3 : IsRatio(m[i][j], r[i][j], n, S, 10)
    \* from a to a p^n, m/n of the way: a p^m (up to the sign); p turns by less than pi/n
    [] o = "slerp" -> LET u == HMul(A, Power(B, Rec.m)) IN IsDirection(X, u, K, 3) \/ IsDirection(X, Neg(u), K, 3)
    \* the same for any angle, the shorter way
    [] o = "slerpangle" ->
         LET t == Rec.angle % TwoPi
             way(w) == LET e == FHMul(AxisAngle(Rec.axis0, Rec.angle0), AxisAngle(Rec.axis, 2 * RDiv(w * Rec.t, 2 * Rec.parts))) IN
                  \/ \A i \in 1..4 : Near(X[i], e[i], 10)
                  \/ \A i \in 1..4 : Near(X[i], -e[i], 10)
         IN \/ t <= Pi + 2 /\ way(t)
            \/ t >= Pi - 2 /\ way(t - TwoPi)
    \* with the accuracy of double precision
    [] o = "wnormalized" -> WDirection(X, A, 4)
    [] o = "wmul" -> WDirection(X, HMul(A, B), 4)
    [] o = "wtomat" -> WRotation(X, A, 4)
    [] o = "wapply" -> LET t == Turn(A, Rec.v) IN \A i \in 1..3 : WRatio(X[i], t[i], N(A), 40)
    [] o = "wfrommat" -> WAxis(X, A, 4)
    [] o = "wslerp" -> WAxis(X, HMul(A, Power(B, Rec.m)), 300)
    [] o = "waxisangle" -> WDirection(X, HalfAngle(Rec.axis, Rec.s, Rec.w), 4)
    [] o = "wyxz" -> LET h(n, i) == HalfAngle(<<IF n = 1 THEN 1 ELSE 0, IF n = 2 THEN 1 ELSE 0, IF n = 3 THEN 1 ELSE 0, 1>>, Rec.s[i], Rec.w[i]) IN
                     WDirection(X, HMul(h(2, 1), HMul(h(1, 2), h(3, 3))), 4)
    \* the angles of the rotation by the given angles are these angles (the second one
    \* inside of the range where they are unique, the others between -pi and pi)
    [] o = "weuler" -> \A i \in 1..3 : WNear(X[i][1] - Rec.angles[i][1], X[i][2] - Rec.angles[i][2], 4, 40)
TraceNext == Step /\ Op(Rec.op)
=============================================================================
