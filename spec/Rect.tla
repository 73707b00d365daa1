-------------------------------- MODULE Rect --------------------------------
(* Axis-aligned boxes (property C13): [p |-> position, s |-> size], both    *)
(* sequences of numbers.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Dim(b) == Len(b.p)
Hi(b, i) == b.p[i] + b.s[i]
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Positive(b) == \A i \in 1..Dim(b) : b.s[i] > 0
Contains(b, x) == \A i \in 1..Dim(b) : b.p[i] <= x[i] /\ x[i] <= Hi(b, i)
ContainsReal(b, x) == \A i \in 1..Dim(b) : b.p[i] < x[i] /\ x[i] < Hi(b, i)
Intersects(a, b) == \A i \in 1..Dim(a) : Max(a.p[i], b.p[i]) <= Min(Hi(a, i), Hi(b, i))
\* proper intersection of boxes with positive extents
IntersectsReal(a, b) == \A i \in 1..Dim(a) : Max(a.p[i], b.p[i]) < Min(Hi(a, i), Hi(b, i))
Zero(d) == [i \in 1..d |-> 0]
Intersection(a, b) ==
  IF ~Intersects(a, b) THEN [p |-> Zero(Dim(a)), s |-> Zero(Dim(a))]
  ELSE [p |-> [i \in 1..Dim(a) |-> Max(a.p[i], b.p[i])],
        s |-> [i \in 1..Dim(a) |-> Min(Hi(a, i), Hi(b, i)) - Max(a.p[i], b.p[i])]]
Inside(x, a) == \A i \in 1..Dim(a) : a.p[i] <= x.p[i] /\ Hi(x, i) <= Hi(a, i)
RECURSIVE Prod(_, _)
Prod(s, n) == IF n = 0 THEN 1 ELSE s[n] * Prod(s, n - 1)
Volume(b) == Prod(b.s, Dim(b))
RECURSIVE Volumes(_)
Volumes(l) == IF l = <<>> THEN 0 ELSE Volume(Head(l)) + Volumes(Tail(l))
\* the boxes of l are the difference of a and b (for positive extents):
\* disjoint parts of a outside of b with the volume of all that is left
IsDifference(l, a, b) ==
  IF ~IntersectsReal(a, b) THEN l = <<a>>
  ELSE /\ \A i \in 1..Len(l) : Positive(l[i]) /\ Inside(l[i], a) /\ ~IntersectsReal(l[i], b)
       /\ \A i, j \in 1..Len(l) : i < j => ~IntersectsReal(l[i], l[j])
       /\ Volumes(l) = Volume(a) - Volume(Intersection(a, b))
\* conversion to another dimension
Resize(v, d) == [i \in 1..d |-> IF i <= Len(v) THEN v[i] ELSE 0]
=============================================================================
