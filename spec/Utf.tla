-------------------------------- MODULE Utf --------------------------------
(* The Unicode encoding forms (property C11).                               *)
EXTENDS Integers, Sequences
Scalar(c) == c \in 0..1114111 /\ ~(c \in 55296..57343)
\* one scalar value
Enc8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Len8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
\* the inverse, by the leading unit
Dec8(b) == IF b[1] < 128 THEN b[1]
           ELSE IF b[1] < 224 THEN (b[1] - 192) * 64 + (b[2] - 128)
           ELSE IF b[1] < 240 THEN (b[1] - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128)
           ELSE (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + (b[4] - 128)
Dec16(u) == IF Len(u) = 1 THEN u[1] ELSE 65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)
\* strings; divide and conquer keeps the recursion flat
RECURSIVE Str8(_), Str16(_)
Str8(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN Enc8(s[1])
           ELSE LET h == Len(s) \div 2 IN Str8(SubSeq(s, 1, h)) \o Str8(SubSeq(s, h + 1, Len(s)))
Str16(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN Enc16(s[1])
           ELSE LET h == Len(s) \div 2 IN Str16(SubSeq(s, 1, h)) \o Str16(SubSeq(s, h + 1, Len(s)))
RECURSIVE Bytes(_)   \* number of bytes of a string
Bytes(s) == IF s = <<>> THEN 0 ELSE IF Len(s) = 1 THEN Len8(s[1])
            ELSE LET h == Len(s) \div 2 IN Bytes(SubSeq(s, 1, h)) + Bytes(SubSeq(s, h + 1, Len(s)))
Count(s) == Len(s)
\* position of the n-th character, n starting with 0
Pos(s, n) == Bytes(SubSeq(s, 1, n))
Pad(b) == [i \in 1..5 |-> IF i <= Len(b) THEN b[i] ELSE 0]
=============================================================================
