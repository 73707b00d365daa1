----------------------------- MODULE Components -----------------------------
(* Components of vectors and matrices, recorded in multiples of 1/U.        *)
(* Types: "i" integers, "s" and "b" integers of 16 and 8 bits (the latter   *)
(* without sign), "f" fractions                                             *)
EXTENDS Fixed, Sequences
CONSTANT U
Trunc(v) == TDiv(v, U) * U
Conv(t, v) == CASE t = "f" -> v [] t = "i" -> Trunc(v) [] t = "s" -> ((((Trunc(v) \div U) + 32768) % 65536) - 32768) * U [] t = "b" -> ((Trunc(v) \div U) % 256) * U
Mul(a, b) == (a * b) \div U       \* only used if exact
\* quotient in type t (t = "f": only if exact)
Quot(t, a, b) == IF t = "f" THEN (a * U) \div b ELSE TDiv(a, b) * U
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
=============================================================================
