------------------------------ MODULE ApproxMC ------------------------------
(* Laws of approximate comparison: symmetric, reflexive for numbers and      *)
(* positive tolerances, monotone in the tolerance, componentwise.            *)
EXTENDS Approx
CONSTANTS M
VARIABLES v, w, e
vars == <<v, w, e>>
Num == {<<0, n>> : n \in 0 - M..M} \union {<<1, 1>>, <<1, -1>>, <<2, 0>>}
Init == v \in Num /\ w = <<0, 0>> /\ e = -3
Next == e = -3 /\ w' \in Num /\ e' \in -2..2 * T /\ UNCHANGED v
Symmetric == Equal(v, w, e) = Equal(w, v, e)
Reflexive == e > 0 /\ v[1] = 0 => Equal(v, v, e)
Monotone == Equal(v, w, e) => Equal(v, w, e + 1)
None == e <= 0 => ~Equal(v, w, e)
NaN == v[1] # 0 => ~Equal(v, w, e)
\* nearer values are equal, too
Between == v[1] = 0 /\ w[1] = 0 /\ v[2] < w[2] /\ w[2] > 0 /\ v[2] >= 0 /\ Equal(v, w, e) => Equal(<<0, v[2] + 1>>, w, e)
Components == LET a == <<v, <<0, 1>>, w>> b == <<w, <<0, 1>>, v>> IN
  /\ EqualAll(a, b, e) = EqualAll(b, a, e)
  /\ (EqualAll(a, b, e) => Equal(v, w, e))
  /\ ~EqualAll(a, <<w, <<0, 1>>>>, e)
\* the limits of huge and of tiny numbers (K: far beyond all numbers and tolerances)
K == 100000
Scale(x, k) == <<x[1], x[2] * k>>
Limits == LET big == Equal(Scale(v, K), Scale(w, K), e) IN
  /\ big \in EqualScaled(v, w, e, 1)
  \* numbers and tolerance in units of 1/K
  /\ (v[1] = 0 /\ w[1] = 0 => (Abs(v[2] - w[2]) * T * K < e * (U * K + Max2(Abs(v[2]), Abs(w[2])))) \in EqualScaled(v, w, e, -1))
=============================================================================
