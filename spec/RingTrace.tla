------------------------------ MODULE RingTrace ------------------------------
(* Validates operations of vectors and matrices with large numbers.  res:     *)
(* the result; ip: the operation changed a, which holds the result then;      *)
(* b2: the other operand afterwards.                                          *)
EXTENDS Ring, TraceBase
Has(k) == k \in DOMAIN Rec
Or(k, d) == IF Has(k) THEN Rec[k] ELSE d
TraceInit == l = 1
\* maximum, minimum and limit of components, decided by comparisons of the numbers themselves
Pick == Rec.res = [i \in 1..Rows(Rec.a) |-> CASE Rec.pick[i] = 0 -> Rec.a[i] [] Rec.pick[i] = 1 -> Rec.b[i] [] Rec.pick[i] = 2 -> Rec.c[i]]
\* exact quotients
Quotient == /\ Rows(Rec.res) = Rows(Rec.a)
            /\ Entries(Rec.res, Rec.b) = Rec.a
Magnitude == Rec.res = [i \in 1..Rows(Rec.a) |-> IF Rec.neg[i] THEN <<RNeg(Rec.a[i][1])>> ELSE Rec.a[i]]
Op(f) ==
  CASE f = "pick" -> Pick
    [] f = "quot" -> Quotient
    [] f = "abs" -> Magnitude
    [] f = "eq" -> Rec.eq = (Rec.a = Rec.b) /\ Rec.ne = (Rec.a # Rec.b)
    [] OTHER -> Rec.res = Result(f, Or("a", <<<<Zero>>>>), Or("b", <<<<Zero>>>>), Or("x", Zero), Or("r", 0), Or("c", 0))
TraceNext == Step /\ Op(Rec.op) /\ (Has("b2") => Rec.b2 = Rec.b)
=============================================================================
