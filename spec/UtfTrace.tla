------------------------------ MODULE UtfTrace ------------------------------
(* Validates executions of nytl/utf.hpp.                                    *)
EXTENDS Utf, TraceBase
TraceInit == l = 1
\* a string of the scalar values Rec.cps was converted in all directions
Conv == /\ Rec.op = "conv"
        /\ LET s == Rec.cps e8 == Str8(s) e16 == Str16(s) IN
           /\ \A i \in DOMAIN s : Scalar(s[i])
           /\ Rec.from32to8 = e8 /\ Rec.from16to8 = e8
           /\ Rec.from32to16 = e16 /\ Rec.from8to16 = e16
           /\ Rec.from8to32 = s /\ Rec.from16to32 = s
           /\ Rec.count = Count(s)
\* the n-th character of a string
Nth == /\ Rec.op = "nth"
       /\ LET s == Rec.cps n == Rec.n IN
          IF n < Count(s) /\ n >= 0
          THEN LET e == Enc8(s[n + 1]) p == Pos(s, n) IN
               /\ ~Rec.thrown
               /\ Rec.chars = Pad(e)
               /\ Rec.pos = p /\ Rec.size = Len(e)
               /\ Rec.mpos = p /\ Rec.msize = Len(e)
          ELSE Rec.thrown
\* a long string: Rec.runs[i] = <<scalar value, repetitions>>
RECURSIVE Locate(_, _, _)
Total(r) == IF r = <<>> THEN 0 ELSE LET RECURSIVE T(_) T(i) == IF i = 0 THEN 0 ELSE r[i][2] + T(i - 1) IN T(Len(r))
Locate(r, n, p) == IF n < r[1][2] THEN <<r[1][1], p + n * Len8(r[1][1])>>
                   ELSE Locate(Tail(r), n - r[1][2], p + r[1][2] * Len8(r[1][1]))
Long == /\ Rec.op = "long"
        /\ Rec.count = Total(Rec.runs)
        /\ IF Rec.n >= 0 /\ Rec.n < Total(Rec.runs)
           THEN LET x == Locate(Rec.runs, Rec.n, 0) e == Enc8(x[1]) IN
             /\ ~Rec.thrown /\ Rec.chars = Pad(e)
             /\ Rec.pos = x[2] /\ Rec.size = Len(e)
             /\ Rec.mpos = x[2] /\ Rec.msize = Len(e)
           ELSE Rec.thrown
TraceNext == Step /\ (Conv \/ Nth \/ Long)
=============================================================================
