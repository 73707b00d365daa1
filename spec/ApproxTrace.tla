---------------------------- MODULE ApproxTrace ----------------------------
(* Validates results of nytl/approx.hpp and approxVec.hpp.  r: the results   *)
(* of v == a, a == v, v != a, a != v.                                        *)
EXTENDS Approx, TraceBase
TraceInit == l = 1
Results(eq) == <<eq, eq, ~eq, ~eq>>
Op(o) ==
  CASE o = "compare" -> Rec.r = Results(EqualAll(Rec.v, Rec.w, Rec.e))
    \* all values from .. for one approximation; 1: equal, 0: not, 2: inconsistent
    [] o = "scan" -> \A i \in DOMAIN Rec.r : Rec.r[i] = IF Equal(<<0, Rec.from + i - 1>>, <<0, Rec.w>>, Rec.e) THEN 1 ELSE 0
    [] o = "tiny" -> Rec.r = Results(\A i \in DOMAIN Rec.b : EqualTiny(Rec.b[i], Rec.d[i], Rec.c))
    [] o = "scaled" -> \E eq \in EqualAllScaled(Rec.v, Rec.w, Rec.e, Rec.s) : Rec.r = Results(eq)
    [] o = "fine" -> Rec.r = Results(EqualFine(Rec.b, Rec.d, Rec.e))
TraceNext == Step /\ Op(Rec.op)
=============================================================================
