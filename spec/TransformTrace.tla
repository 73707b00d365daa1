--------------------------- MODULE TransformTrace ---------------------------
(* Validates results of nytl/transform.hpp.  Matrices are recorded k times    *)
(* enlarged.                                                                  *)
EXTENDS Transform, TraceBase
TraceInit == l = 1
X == Rec.x
K == Rec.k
D == Dim(X)
NearM(m, e, tol) == \A i, j \in 1..Dim(m) : Near(m[i][j], e[i][j], tol)
\* a is k times a rotation matrix
Rigid(a, k, tol) ==
  /\ \A i, j \in 1..3 : Near(Dot3(a[i], a[j]), IF i = j THEN k * k ELSE 0, 2 * tol * k)
  /\ LET c == Cross(a[1], a[2]) IN \A i \in 1..3 : Near(RDiv(c[i], k), a[3][i], 3 * tol)
Upper3(m) == [i \in 1..3 |-> <<m[i][1], m[i][2], m[i][3]>>]
\* outside of the first n dimensions like the identity matrix
Beyond(m, n, k) == \A i, j \in 1..Dim(m) : (i > n \/ j > n) => m[i][j] = IF i = j THEN k ELSE 0
\* the matrix X maps p to (cx, cy, z[1]/z[2]) in clip space
Size(p) == Abs(p[1]) + Abs(p[2]) + Abs(p[3]) + Abs(p[4])
Maps(p, c, z) ==
  LET x == Image(X, p) w == x[4]
      tol(i) == Size(p) \div 2 + 1 + (IF Rec.fl THEN Sum([j \in 1..4 |-> Abs(X[i][j] * p[j])], 4) \div 200000 ELSE 0)
      t(i) == tol(i) + tol(4) IN
  /\ Abs(w) > tol(4)
  /\ \A i \in 1..2 : Near(x[i], (2 * c[i] - 1) * w, t(i))
  /\ Near(x[3] * z[2], z[1] * w, t(3) * Abs(z[2]))
\* the same with wide numbers
WDot(r, v) == <<Sum([j \in 1..Len(r) |-> r[j][1] * v[j]], Len(r)), Sum([j \in 1..Len(r) |-> r[j][2] * v[j]], Len(r))>>
\* r v = n
WLinear(r, v, n, tol) == LET s == Sum([j \in 1..Len(v) |-> Abs(v[j])], Len(v)) d == WDot(r, v) IN WNear(d[1] - n * W, d[2], s, tol * s)
\* r v f = s v g
WSame(r, v, f, s, g, tol) == LET a == WDot(r, v) b == WDot(s, v) t == Size(v) * (Abs(f) + Abs(g)) IN WNear(a[1] * f - b[1] * g, a[2] * f - b[2] * g, t, tol * t)
WMaps(p, c, z) ==
  LET w == WDot(X[4], p) IN
  /\ Abs(w[1]) > 1
  /\ \A i \in 1..2 : WSame(X[i], p, 1, X[4], 2 * c[i] - 1, Rec.tol)
  /\ WSame(X[3], p, z[2], X[4], z[1], Rec.tol)
WBeyond(m, n) == \A i, j \in 1..Dim(m) : (i > n \/ j > n) => m[i][j] = IF i = j THEN <<W, 0>> ELSE <<0, 0>>
\* m v = n f/g
WMapsTo(m, v, n, tol) == \A i \in 1..3 : WLinear(<<m[i][1], m[i][2], m[i][3]>>, v, n[i], tol)
\* the rotation r/n around the point pos; the last column is coarse: h + l/W
WView(r, n, tol) ==
  /\ \A i, j \in 1..3 : WRatio(X[i][j], r[i][j], n, tol)
  /\ \A i \in 1..3 : WNear(Rec.t[i][1] * n + Dot3(r[i], Rec.pos), Rec.t[i][2] * n, n, 2 * n)
  /\ X[4] = <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<W, 0>>>>
Op(o) ==
  CASE o = "scale" -> X = Scaling(D, Rec.s)
    [] o = "translate" -> X = Translation(D, Rec.t)
    [] o = "expand" -> X = Expand(D, Rec.a, 1)
    \* in place: from the left
    [] o = "scaled" -> X = Times(Scaling(D, Rec.s), Rec.a)
    [] o = "translated" -> X = Times(Translation(D, Rec.t), Rec.a)
    [] o = "flipped" -> X = Times(Flip(D, Rec.axis), Rec.a)
    [] o = "same" -> X = Rec.a
    [] o = "multpos" -> LET r == Image(Rec.m, <<Rec.v[1], Rec.v[2], Rec.v[3], 1>>) IN \A i \in 1..3 : IsRatio(Sgn(r[4]) * X[i], r[i], Abs(r[4]), K, 2)
    [] o = "rotate2" -> NearM(X, Expand(D, Turn2(Rec.angle), S), 3)
    [] o = "rotated2" -> NearM(X, Times(Expand(D, Turn2(Rec.angle), S), Rec.a), Rec.tol)
    [] o = "orient2" -> /\ \A i \in 1..2 : Near(X[i][1] * Rec.from[1] + X[i][2] * Rec.from[2], K * Rec.to[i], Abs(Rec.from[1]) + Abs(Rec.from[2]))
                        /\ Near(X[1][1], X[2][2], 1) /\ Near(X[1][2], -X[2][1], 1) /\ Beyond(X, 2, K)
    \* rotation of the quaternion a (angle and axis), or by an angle around a rational axis
    [] o = "rotate3" -> IsRotation(X, Rec.q, K, Rec.tol) /\ Beyond(X, 3, K)
    [] o = "rotate3a" -> NearM(X, Expand(D, FRot(AxisAngle(Rec.axis, Rec.angle)), S), 8)
    [] o = "rotated3" -> LET r == RotN(Rec.q) n == N(Rec.q) e == Times(Expand(D, r, n), Rec.a) IN \A i, j \in 1..D : IsRatio(X[i][j], e[i][j], n, K, Rec.tol)
    [] o = "rotatev" -> LET t == Turn(Rec.q, Rec.v) IN \A i \in 1..3 : IsRatio(X[i], t[i], N(Rec.q), K, Rec.tol)
    [] o = "rotateva" -> LET m == FRot(AxisAngle(Rec.axis, Rec.angle)) IN \A i \in 1..3 : Near(X[i], Dot3(m[i], Rec.v), 60)
    \* from and to: v[1..3]/v[4]
    [] o = "orient3" -> LET f == Rec.from t == Rec.to u == Upper3(X) a == Cross(f, t) IN
         /\ \A i \in 1..3 : Near(Dot3(u[i], f) * t[4], K * t[i] * f[4], Rec.tol * (2 * f[4] * t[4]))
         /\ Rigid(u, K, Rec.tol) /\ Beyond(X, 3, K)
         \* without turning anything else: the axis is fixed
         /\ \A i \in 1..3 : Near(Dot3(u[i], a), K * a[i], Rec.tol * (Abs(a[1]) + Abs(a[2]) + Abs(a[3])))
    [] o = "base" -> LET d == Rec.dir b == X IN
         /\ \A i \in 1..2 : Near(Dot3(b[i], d), 0, Rec.tol * 2 * d[4])
         /\ \A i, j \in 1..2 : Near(Dot3(b[i], b[j]), IF i = j THEN K * K ELSE 0, 2 * Rec.tol * K)
    [] o = "ortho" -> \A c \in Corners : \A n \in 0..2 : Maps(OnEdge(Rec.box, c, n, 2), c, <<n, 2>>) /\ Near(X[4][4], K, 0)
    \* depth: normal, reversed (rev), reversed with the far plane at infinity (inf)
    [] o = "project" -> LET b == Rec.box far == Reduce(<<Abs(b.f), Abs(b.n)>>) fn == far[1] fd == far[2] IN
         \A c \in Corners :
           IF Rec.mode = "inf" THEN \A d \in {<<1, 1>>, <<2, 1>>, <<5, 2>>, <<1, 0>>} : Maps(OnRay(b, c, d[1], d[2]), c, DepthRevInf(d[1], d[2]))
           ELSE \A d \in {<<1, 1>>, <<fn, fd>>, Reduce(<<fn + fd, 2 * fd>>)} :
             Maps(OnRay(b, c, d[1], d[2]), c, IF Rec.mode = "rev" THEN DepthRev(d[1], d[2], fn, fd) ELSE Depth(d[1], d[2], fn, fd))
    \* rot is the quaternion
    [] o = "lookq" -> LET r == RotN(Conj(Rec.q)) n == N(Rec.q) IN
         /\ \A i, j \in 1..3 : IsRatio(X[i][j], r[i][j], n, K, Rec.tol)
         /\ \A i \in 1..3 : IsRatio(X[i][4], -Dot3(r[i], Rec.pos), n, K, Rec.tol * 8)
         /\ X[4] = <<0, 0, 0, K>>
    [] o = "look" -> LET u == Upper3(X) z == Rec.z IN
         /\ \A i \in 1..3 : Near(u[3][i] * z[4], K * z[i], Rec.tol * z[4])
         /\ Rigid(u, K, Rec.tol)
         \* up in the plane of the y and the z axis, on the positive side of y
         /\ Near(Dot3(u[1], Rec.up), 0, Rec.tol * 24) /\ Dot3(u[2], Rec.up) > 0
         /\ IF Rec.moved THEN /\ \A i \in 1..3 : Near(X[i][4], -Dot3(u[i], Rec.pos), Rec.tol * 24) /\ X[4] = <<0, 0, 0, K>>
            ELSE Beyond(X, 3, K)
    \* with the accuracy of double precision
    [] o = "wmultpos" -> LET r == Image(Rec.m, <<Rec.v[1], Rec.v[2], Rec.v[3], 1>>) IN \A i \in 1..3 : WRatio(X[i], Sgn(r[4]) * r[i], Abs(r[4]), 40)
    [] o = "wrotate2" -> LET c == Rec.w * Rec.w - Rec.s * Rec.s s == 2 * Rec.s * Rec.w n == Rec.w * Rec.w + Rec.s * Rec.s IN
         /\ WRatio(X[1][1], c, n, 2) /\ WRatio(X[2][2], c, n, 2) /\ WRatio(X[2][1], s, n, 2) /\ WRatio(X[1][2], -s, n, 2) /\ WBeyond(X, 2)
    [] o = "worient2" -> LET f == Rec.from t == Rec.to n == f[1] * f[1] + f[2] * f[2] c == f[1] * t[1] + f[2] * t[2] s == f[1] * t[2] - f[2] * t[1] IN
         /\ WRatio(X[1][1], c, n, 40) /\ WRatio(X[2][2], c, n, 40) /\ WRatio(X[2][1], s, n, 40) /\ WRatio(X[1][2], -s, n, 40) /\ WBeyond(X, 2)
    [] o = "wrotate3" -> WRotation(X, Rec.q, 8) /\ WBeyond(X, 3)
    [] o = "wrotatev" -> LET t == Turn(Rec.q, Rec.v) IN \A i \in 1..3 : WRatio(X[i], t[i], N(Rec.q), 80)
    [] o = "worient3" -> LET f == Rec.from t == Rec.to a == Cross(f, t) IN
         IF a = <<0, 0, 0>> THEN WBeyond(X, 0)
         \* the axis, from and a third vector and their images
         ELSE /\ WBeyond(X, 3) /\ WMapsTo(X, a, a, Rec.tol)
              /\ \A i \in 1..3 : LET d == WDot(<<X[i][1], X[i][2], X[i][3]>>, f) IN WNear(d[1] * t[4] - t[i] * f[4] * W, d[2] * t[4], 3 * f[4] * t[4], 3 * Rec.tol * f[4] * t[4])
              /\ LET af == Cross(a, f) at == Cross(a, t) IN
                 \A i \in 1..3 : LET d == WDot(<<X[i][1], X[i][2], X[i][3]>>, af) s == (Abs(af[1]) + Abs(af[2]) + Abs(af[3])) * t[4] IN WNear(d[1] * t[4] - at[i] * f[4] * W, d[2] * t[4], 60000, Rec.tol * s)
    [] o = "wbase" -> /\ \A i \in 1..2 : WLinear(X[i], <<Rec.dir[1], Rec.dir[2], Rec.dir[3]>>, 0, Rec.tol)
                      /\ \A i, j \in 1..2 : WSumProd(X[i], X[j], IF i = j THEN 1 ELSE 0, Rec.tol)
    [] o = "wbasev" -> /\ \A i \in 1..2 : WSumProd(X[i], Rec.dir, 0, Rec.tol)
                       /\ \A i, j \in 1..2 : WSumProd(X[i], X[j], IF i = j THEN 1 ELSE 0, Rec.tol)
    [] o = "wlook" -> WView(RotN(Conj(Rec.q)), N(Rec.q), 12)
    [] o = "wortho" -> (\A c \in Corners : \A n \in 0..2 : WMaps(OnEdge(Rec.box, c, n, 2), c, <<n, 2>>)) /\ X[4] = <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<W, 0>>>>
    [] o = "wproject" -> LET b == Rec.box far == Reduce(<<Abs(b.f), Abs(b.n)>>) fn == far[1] fd == far[2] IN
         \A c \in Corners :
           IF Rec.mode = "inf" THEN \A d \in {<<1, 1>>, <<2, 1>>, <<5, 2>>, <<1, 0>>} : WMaps(OnRay(b, c, d[1], d[2]), c, DepthRevInf(d[1], d[2]))
           ELSE \A d \in {<<1, 1>>, <<fn, fd>>, Reduce(<<fn + fd, 2 * fd>>)} :
             WMaps(OnRay(b, c, d[1], d[2]), c, IF Rec.mode = "rev" THEN DepthRev(d[1], d[2], fn, fd) ELSE Depth(d[1], d[2], fn, fd))
TraceNext == Step /\ Op(Rec.op)
=============================================================================
