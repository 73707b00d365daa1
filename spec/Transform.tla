----------------------------- MODULE Transform -----------------------------
(* Transformations of 2D and 3D space as matrices (property C18).  They are  *)
(* defined by what they do to points; rotations come from Quaternion.tla.    *)
EXTENDS Quaternion
Dim(m) == Len(m)
Ident(d, one) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN one ELSE 0]]
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Times(a, b) == [i \in 1..Dim(a) |-> [j \in 1..Dim(b) |-> Sum([n \in 1..Dim(b) |-> a[i][n] * b[n][j]], Dim(b))]]
Image(m, p) == [i \in 1..Dim(m) |-> Sum([j \in 1..Dim(m) |-> m[i][j] * p[j]], Dim(m))]
\* the matrix a in the upper left of an identity matrix
Expand(d, a, one) == [i \in 1..d |-> [j \in 1..d |-> IF i <= Dim(a) /\ j <= Dim(a) THEN a[i][j] ELSE IF i = j THEN one ELSE 0]]
\* exact matrices
Scaling(d, s) == [i \in 1..d |-> [j \in 1..d |-> IF i # j THEN 0 ELSE IF i <= Len(s) THEN s[i] ELSE 1]]
Translation(d, t) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE IF j = d /\ i <= Len(t) THEN t[i] ELSE 0]]
Flip(d, n) == [i \in 1..d |-> [j \in 1..d |-> IF i # j THEN 0 ELSE IF i = n THEN -1 ELSE 1]]
Turn2(a) == << <<FCos(a), -FSin(a)>>, <<FSin(a), FCos(a)>> >>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
----------------------------------------------------------------------------
\* Projections are described by the images of homogeneous points <<X, Y, Z, W>>.
\* Boxes have edges l, r, b, t (at the near plane) and planes n, f, all over w.
Corners == {0, 1} \X {0, 1}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdTo(_, _)
GcdTo(p, n) == IF n = 0 THEN 0 ELSE Gcd(GcdTo(p, n - 1), p[n])
\* the same homogeneous point or ratio with smaller numbers
Reduce(p) == LET g == GcdTo(p, Len(p)) IN [i \in 1..Len(p) |-> p[i] \div g]
\* on the ray from the origin through the corner c of the near plane, n/d times as far away
OnRay(b, c, n, d) == Reduce(<<n * (IF c[1] = 0 THEN b.l ELSE b.r), n * (IF c[2] = 0 THEN b.b ELSE b.t), n * b.n, d * b.w>>)
\* on the edge through the corner c, n/d of the way from the near to the far plane
OnEdge(b, c, n, d) == Reduce(<<d * (IF c[1] = 0 THEN b.l ELSE b.r), d * (IF c[2] = 0 THEN b.b ELSE b.t), d * b.n + n * (b.f - b.n), d * b.w>>)
\* depth (a ratio) of points n/d times as far away as the near plane, the far plane being fn/fd times as far:
\* far (z - near) / (z (far - near))
Depth(n, d, fn, fd) == Reduce(IF fn > fd THEN <<fn * (n - d), n * (fn - fd)>> ELSE <<fn * (d - n), n * (fd - fn)>>)
\* reversed
DepthRev(n, d, fn, fd) == LET e == Depth(n, d, fn, fd) IN <<e[2] - e[1], e[2]>>
\* far plane at infinity, reversed
DepthRevInf(n, d) == <<d, n>>
=============================================================================
