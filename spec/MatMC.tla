------------------------------- MODULE MatMC -------------------------------
(* The definitions fulfil the laws of matrix algebra, for all small ones.   *)
EXTENDS Mat, TLC
CONSTANTS R, C, N
Entry == { x * U : x \in (-N)..N }
Mats(r, c) == [1..r -> [1..c -> Entry]]
\* the first matrix, then (in parallel) the second one
Init == (\E m \in Mats(R, C) : reg = <<m, m>>) /\ typ = <<"i">>
Next == /\ typ = <<"i">>
        /\ typ' = <<"i", "i">>
        /\ \E m \in Mats(R, C) : reg' = [reg EXCEPT ![2] = m]
a == reg[1]
b == reg[2]
Laws == /\ Plus(a, b) = Plus(b, a) /\ Minus(a, b) = Plus(a, Neg(b)) /\ Plus(Minus(a, b), b) = a
        /\ Transpose(Transpose(a)) = a /\ Transpose(Plus(a, b)) = Plus(Transpose(a), Transpose(b))
        /\ Times(Identity(R), a) = a /\ Times(a, Identity(C)) = a
        /\ LET p == Times(a, Transpose(b)) IN Transpose(p) = Times(b, Transpose(a)) /\ MTrace(p) = MTrace(Times(Transpose(b), a))
             /\ Symmetric(Times(a, Transpose(a)))
        /\ Times(Transpose(a), Plus(a, b)) = Plus(Times(Transpose(a), a), Times(Transpose(a), b))
        /\ \A i \in 1..R, j \in 1..C : /\ Times(Row(Identity(R), i), a) = Row(a, i)
                                       /\ Times(a, Col(Identity(C), j)) = Col(a, j)
                                       /\ Col(SetCol(a, j, Col(b, 1)), j) = Col(b, 1)
                                       /\ \A k \in 1..R : SwapRow(a, i, k) = Times(SwapRow(Identity(R), i, k), a)
                                       /\ \A k \in 1..C : SwapCol(a, j, k) = Times(a, SwapCol(Identity(C), j, k))
        /\ Scale(2 * U, a) = Plus(a, a)
        /\ Resize(Resize(a, R + 1, C + 1), R, C) = a
Assoc == LET t == Transpose(b) IN Times(Times(a, t), a) = Times(a, Times(t, a))
=============================================================================
