------------------------------- MODULE UtfMC -------------------------------
(* The encodings are lossless, for every scalar value of a range.           *)
EXTENDS Utf
CONSTANTS First, Last, Stride
VARIABLE c
MCInit == \E k \in 0..Stride : c = First + k
MCNext == c' = c + Stride + 1 /\ c' <= Last
MCSpec == MCInit /\ [][MCNext]_c
Lossless == Scalar(c) => /\ Dec8(Enc8(c)) = c /\ Dec16(Enc16(c)) = c /\ Len(Enc8(c)) = Len8(c)
                         /\ \A i \in 1..Len8(c) : Enc8(c)[i] \in 0..255
                         /\ \A i \in 2..Len8(c) : Enc8(c)[i] \in 128..191
                         /\ \A i \in 1..Len(Enc16(c)) : Enc16(c)[i] \in 0..65535
=============================================================================
