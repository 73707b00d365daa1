--------------------------- MODULE QuaternionMC ---------------------------
(* Laws of the specification of quaternions on small integer quaternions   *)
(* and of the sequences of rotations at multiples of a quarter turn.        *)
EXTENDS Quaternion, FiniteSets
CONSTANTS M, E
VARIABLES p, q, s, a
vars == <<p, q, s, a>>
Quats(n) == [1..4 -> 0 - n..n]
Seqs == {t \in [1..3 -> 1..3] : t[1] # t[2] /\ t[2] # t[3]}
Zero == <<0, 0, 0>>
Init == \/ p \in Quats(M) /\ q = One /\ s = <<1, 2, 3>> /\ a = Zero
        \/ p = One /\ q = One /\ s \in Seqs /\ a = <<1, 0, 0>>
\* one quaternion and one sequence in the beginning, then everything for them
Next == \/ a = Zero /\ q' \in Quats(M) /\ a' = <<2, 0, 0>> /\ UNCHANGED <<p, s>>
        \/ a = <<1, 0, 0>> /\ a' \in [1..3 -> {i * E : i \in 0..(2 * TwoPi) \div E}] /\ UNCHANGED <<p, q, s>>
Exact == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]]
Tr(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
Algebra ==
  /\ N(HMul(p, q)) = N(p) * N(q)
  /\ Conj(HMul(p, q)) = HMul(Conj(q), Conj(p))
  /\ HMul(p, HMul(q, <<1, -2, 3, 1>>)) = HMul(HMul(p, q), <<1, -2, 3, 1>>)
  /\ HMul(q, One) = q /\ HMul(One, q) = q
  /\ HMul(q, Conj(q)) = <<0, 0, 0, N(q)>>
Rotations ==
  /\ RotN(HMul(p, q)) = MM(RotN(p), RotN(q))
  /\ Turn(q, <<3, -1, 2>>) = MV(RotN(q), <<3, -1, 2>>)
  /\ MM(RotN(q), Tr(RotN(q))) = [i \in 1..3 |-> [j \in 1..3 |-> N(q) * N(q) * Exact[i][j]]]
  /\ RotN(q) = RotN(Neg(q))
  \* the axis is fixed
  /\ Turn(q, <<q[1], q[2], q[3]>>) = <<q[1] * N(q), q[2] * N(q), q[3] * N(q)>>
Directions == q # <<0, 0, 0, 0>> => IsDirection([i \in 1..4 |-> 64 * q[i]], q, ISqrt(N(q) * 4096), 1)
\* the product of the quaternions is the product of the matrices
Sequences3 == p = One /\ q = One =>
  LET u(n) == [i \in 1..4 |-> IF i <= 3 THEN Unit(n)[i] ELSE 1]
      h == FHMul(AxisAngle(u(s[1]), a[1]), FHMul(AxisAngle(u(s[2]), a[2]), AxisAngle(u(s[3]), a[3])))
      m == Sequence(s, a) r == FRot(h)
  IN \A i, j \in 1..3 : Near(m[i][j], r[i][j], 12)
\* quarter turns: exactly the signed permutation matrices of determinant 1
Quarter == E = HalfPi /\ p = One /\ q = One /\ a[1] \notin {1, 2} => \A i, j \in 1..3 : LET m == Sequence(s, a) IN \E v \in {-S, 0, S} : Near(m[i][j], v, 6)
=============================================================================
