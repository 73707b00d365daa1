----------------------------- MODULE RectTrace -----------------------------
(* Validates executions of nytl/rect.hpp, rectOps.hpp and simplex.hpp.      *)
(* Coordinates are recorded in a unit that makes them integers.             *)
EXTENDS Rect, TraceBase
TraceInit == l = 1
Has(k) == k \in DOMAIN Rec
RECURSIVE Join(_, _)
Join(v, i) == ToString(v[i]) \o (IF i = Len(v) THEN "" ELSE ", " \o Join(v, i + 1))
Show(v) == "(" \o Join(v, 1) \o ")"
Pair ==
  /\ Rec.op = "pair"
  /\ LET a == Rec.a b == Rec.b pos == Positive(a) /\ Positive(b) IN
     /\ Rec.int = Intersects(a, b) /\ Rec.tni = Intersects(b, a)
     /\ (pos => Rec.intr = IntersectsReal(a, b) /\ Rec.rtni = IntersectsReal(b, a))
     /\ \A i \in 1..Len(Rec.pts) : /\ Rec.cont[i] = Contains(a, Rec.pts[i])
                                   /\ Rec.contr[i] = ContainsReal(a, Rec.pts[i])
     /\ (Has("isect") => Rec.isect = Intersection(a, b) /\ Rec.tcesi = Intersection(b, a))
     /\ (Has("diff") => IsDifference(Rec.diff, a, b) /\ IsDifference(Rec.ffid, b, a))
     /\ (Has("eq") => Rec.eq = (a = b) /\ Rec.ne = (a # b))
     /\ (Has("vol") => Rec.vol = Volume(a))
     /\ (Has("halves") => Rec.halves = a.s)
     /\ (Has("print") => Rec.print = "{" \o Show(a.p) \o Show(a.s) \o "}")
     \* doubled coordinates
     /\ (Has("center") => Rec.center = [i \in 1..Dim(a) |-> 2 * a.p[i] + a.s[i]])
Conv == /\ Rec.op = "conv"
        /\ Rec.res.p = Resize(Rec.a.p, Rec.dim) /\ Rec.res.s = Resize(Rec.a.s, Rec.dim)
Simplex == /\ Rec.op = "simplex" /\ Len(Rec.res) = Len(Rec.points)
           /\ \A i \in 1..Len(Rec.points) : Rec.res[i] = Resize(Rec.points[i], Rec.dim)
TraceNext == Step /\ (Pair \/ Conv \/ Simplex)
=============================================================================
