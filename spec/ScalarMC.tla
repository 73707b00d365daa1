------------------------------ MODULE ScalarMC ------------------------------
(* Laws of the specification of the scalar functions.                        *)
EXTENDS Scalar, FiniteSets
CONSTANT M
VARIABLES x, y, z
vars == <<x, y, z>>
Init == x \in 0 - M..M /\ y = 0 /\ z = 0
Next == z = 0 /\ y' \in 0 - M..M /\ z' \in 1..M /\ UNCHANGED x
\* numbers in base B
Ax == Abs(x) * 37
Ay == Abs(y) * 41
Numbers ==
  /\ BAdd(Digits(Ax), Digits(Ay)) = Digits(Ax + Ay)
  /\ BMul(Digits(Ax), Digits(Ay)) = Digits(Ax * Ay)
  /\ (BLeq(Digits(Ax), Digits(Ay)) <=> Ax <= Ay)
  /\ (BNear(Digits(Ax), Digits(Ay), Digits(Abs(z))) <=> Abs(Ax - Ay) <= Abs(z))
Mapping ==
  /\ Map(x) >= 0 /\ Unmap(Map(x)) = x
  /\ (x >= 0 => Map(Unmap(x)) = x)
  /\ (x # y => Map(x) # Map(y))
  /\ IsMapped(Sgn(x), Digits(Abs(x)), Digits(Map(x)))
  /\ (Abs(x) < Abs(y) => Map(x) < Map(y))
Pairing == x >= 0 /\ y >= 0 =>
  /\ IsPair(Digits(x), Digits(y), Digits(Pair(x, y)))
  /\ \A v \in 0..M : \A w \in 0..M : (<<v, w>> # <<x, y>> => Pair(v, w) # Pair(x, y))
\* every number is a pair
Onto == z = 0 /\ x >= 0 => \E v, w \in 0..M : Pair(v, w) = x
Facts == Factorial(5) = Digits(120) /\ (x > 0 /\ x < 12 => Factorial(x) = BMul(Digits(x), Factorial(x - 1)))
Clamps == z > 0 => LET c == Clamp(x, y, y + z - 1) IN
  /\ c >= y /\ c <= y + z - 1
  /\ (0 \in ClampSides(x, y, y + z - 1) <=> c = x)
  /\ (x < y => c = y) /\ (x > y + z - 1 => c = y + z - 1)
Mixes == /\ Mix(x, y, 0, 8) = 8 * x /\ Mix(x, y, 8, 8) = 8 * y
         /\ (x <= y => \A a \in 0..7 : Mix(x, y, a, 8) <= Mix(x, y, a + 1, 8))
         /\ \A a \in 0..8 : Mix(x, y, a, 8) = Mix(y, x, 8 - a, 8)
         \* numbers near a large one can be judged by what is left without it
         /\ \A a \in 0..8 : Mix(x + z, y + z, a, 8) = Mix(x, y, a, 8) + 8 * z
SmoothLaws == z > 0 => LET s(v) == Smooth(y, y + z, v) IN
  /\ s(x)[1] >= 0 /\ s(x)[1] <= s(x)[2]
  /\ (x <= y => s(x)[1] = 0) /\ (x >= y + z => s(x)[1] = s(x)[2])
  /\ s(x)[1] <= s(x + 1)[1]
  /\ s(x) = Smooth(0, z, x - y)
  /\ s(x)[1] + s(2 * y + z - x)[1] = s(x)[2]
=============================================================================
