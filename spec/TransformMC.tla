---------------------------- MODULE TransformMC ----------------------------
(* Laws of the specification of transformations.                            *)
EXTENDS Transform, FiniteSets
CONSTANTS M
VARIABLES p, s, t, n
vars == <<p, s, t, n>>
I == 0 - M..M
Init == p = <<0, 0, 0>> /\ s \in I \X I \X I /\ t = <<0, 0, 0>> /\ n = 0
Next == n = 0 /\ p' \in I \X I \X I /\ t' \in I \X I \X I /\ n' \in 1..3 /\ UNCHANGED s
H(v) == <<v[1], v[2], v[3], 1>>
Affine == n > 0 =>
  /\ Image(Translation(4, t), H(p)) = H([i \in 1..3 |-> p[i] + t[i]])
  /\ Image(Scaling(4, s), H(p)) = H([i \in 1..3 |-> p[i] * s[i]])
  /\ Times(Translation(4, t), Translation(4, s)) = Translation(4, [i \in 1..3 |-> s[i] + t[i]])
  /\ Times(Scaling(4, t), Scaling(4, s)) = Scaling(4, [i \in 1..3 |-> s[i] * t[i]])
  /\ Times(Flip(4, n), Flip(4, n)) = Ident(4, 1)
  \* left: the new transformation comes last
  /\ Image(Times(Scaling(4, s), Translation(4, t)), H(p)) = H([i \in 1..3 |-> s[i] * (p[i] + t[i])])
  /\ Expand(4, Scaling(3, s), 1) = Scaling(4, s)
Planar == n = 0 => \A k \in -8..8 : LET a == k * 3216 m == Turn2(a) r == Around(3, a) IN
  \A i, j \in 1..2 : m[i][j] = r[i][j]
Less(a, b) == a[1] * b[2] < b[1] * a[2]
\* depth over all points between the planes (halves) increases from 0 to 1
Depths == n = 0 => \A f \in 3..8 :
  /\ Depth(2, 2, f, 2)[1] = 0 /\ (LET e == Depth(f, 2, f, 2) IN e[1] = e[2])
  /\ \A z \in 2..f - 1 : Less(Depth(z, 2, f, 2), Depth(z + 1, 2, f, 2)) /\ Less(DepthRev(z + 1, 2, f, 2), DepthRev(z, 2, f, 2))
  /\ \A z \in 2..f : Less(DepthRevInf(z + 1, 2), DepthRevInf(z, 2))
\* the frustum and the field of view are the same when swapped planes are used instead of reversed ones
Reduced == n > 0 => LET v == <<p[1], p[2], n>> r == Reduce(v) IN \A i, j \in 1..3 : r[i] * v[j] = r[j] * v[i] /\ r[3] > 0
Swapped == n = 0 => \A f \in 3..6, d \in 2..12 : LET a == DepthRev(d, 2, f, 2) b == Depth(d, f, 2, f) IN a[1] * b[2] = b[1] * a[2]
=============================================================================
