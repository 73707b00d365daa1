------------------------------- MODULE RingMC -------------------------------
(* The residues compute what the integers do.                                *)
EXTENDS Ring
CONSTANTS N, Big
VARIABLES x, y
Init == x = 0 /\ y = 0
Some == (-N..N) \cup {Big, -Big, Big - 1, Big \div 3}
Next == x = 0 /\ y = 0 /\ \E v, w \in Some : x' = v /\ y' = w
Hom == /\ RAdd(Num(x), Num(y)) = Num(x + y) /\ RSub(Num(x), Num(y)) = Num(x - y) /\ RNeg(Num(x)) = Num(-x)
       /\ (x \in -N..N /\ y \in -N..N => RMul(Num(x), Num(y)) = Num(x * y))
       /\ (Num(x) = Num(y) <=> x = y)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Coprime == \A i, j \in Ks : i # j => Gcd(Moduli[i], Moduli[j]) = 1
A == <<<<Num(x), Num(y)>>, <<Num(y), Num(1)>>, <<Num(3), Num(x)>>>>
B == <<<<Num(y), Num(2), Num(x)>>, <<Num(-1), Num(x), Num(y)>>>>
P == <<<<Num(x)>>, <<Num(y)>>, <<Num(2)>>>>
Q == <<<<Num(1)>>, <<Num(x)>>, <<Num(y)>>>>
Laws == /\ Transpose(Times(A, B)) = Times(Transpose(B), Transpose(A))
        /\ Times(Identity(3), A) = A /\ Times(A, Identity(2)) = A
        /\ Result("dot", P, Result("cross3", P, Q, Zero, 0, 0), Zero, 0, 0) = Scalar(Zero)
        /\ Result("trace", Times(A, B), B, Zero, 0, 0) = Result("trace", Times(B, A), A, Zero, 0, 0)
        /\ Resize(Resize(A, 4, 5), 3, 2) = A
=============================================================================
