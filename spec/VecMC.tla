------------------------------- MODULE VecMC -------------------------------
(* The in-place actions have the algebraic relations of the operations they *)
(* stand for, for all small vectors.                                        *)
EXTENDS Vec, TLC
CONSTANTS D, N
Comp == { x * U : x \in (-N)..N }
Vecs == [1..D -> Comp]
Init == reg \in [1..2 -> Vecs] /\ typ = <<"i", "i">>
Next == \E d, b \in 1..2 : AddAssign(d, b) \/ SubAssign(d, b) \/ CwMulAssign(d, b) \/ SwapRegs(d, b) \/ \E i \in 1..D : MulAssign(d, reg[b][i])
Spec == Init /\ [][Next]_<<reg, typ>>
One == UNCHANGED <<reg, typ>>
a == reg[1]
b == reg[2]
Laws == /\ Plus(a, b) = Plus(b, a) /\ Minus(a, b) = Neg(Minus(b, a)) /\ Plus(Minus(a, b), b) = a
        /\ Dot(a, b) = Dot(b, a) /\ Dot(a, b) = Sum(CwMul(a, b))
        /\ Dot(Plus(a, b), a) = Dot(a, a) + Dot(b, a)
        /\ Dot(a, b) * Dot(a, b) <= Dot(a, a) * Dot(b, b)
        /\ Mirror(a, Mirror(a, b)) = b
        /\ Plus(CwMax(a, b), CwMin(a, b)) = Plus(a, b)
        /\ Clamp(a, CwMin(a, b), CwMax(a, b)) = a
        /\ \A i \in 1..D : Prod(a) = 0 <=> \E k \in 1..D : a[k] = 0
        /\ D = 3 => /\ Dot(Cross3(a, b), a) = 0 /\ Dot(Cross3(a, b), b) = 0 /\ Cross3(a, b) = Neg(Cross3(b, a))
                    \* Lagrange: fixes the length, orientation by the unit vectors
                    /\ Dot(Cross3(a, b), Cross3(a, b)) = Mul(Dot(a, a), Dot(b, b)) - Mul(Dot(a, b), Dot(a, b))
        /\ D = 2 => Cross2(a, b) = Dot(a, <<b[2], -b[1]>>)
Step == [][/\ \A d \in 1..2, e \in 1..2 : AddAssign(d, e) /\ d # e => reg'[d] = Plus(reg[d], reg[e]) /\ reg'[3 - d] = reg[3 - d]
           /\ \A d \in 1..2 : AddAssign(d, d) => reg'[d] = Scale(2 * U, reg[d])
           /\ \A d \in 1..2 : SubAssign(d, d) => reg'[d] = All(D, 0)]_<<reg, typ>>
Unit == Cross3(<<U, 0, 0>>, <<0, U, 0>>) = <<0, 0, U>>
Types == /\ Conv("i", -(U + 1)) = -U /\ Conv("b", -U) = 255 * U /\ Conv("b", 256 * U) = 0 /\ Quot("i", -7 * U, 2 * U) = -3 * U
         /\ Floor(-1) = -U /\ Ceil(-1) = 0 /\ Ceil(1) = U
Bound == TLCGet("level") <= 1
=============================================================================
