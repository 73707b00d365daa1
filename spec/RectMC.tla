------------------------------- MODULE RectMC -------------------------------
(* The definitions agree with the point sets, for all boxes of a small      *)
(* grid (points on the grid and between its lines).                         *)
EXTENDS Rect, TLC
CONSTANTS N, D
VARIABLES a, b
Coord == 0..N
Boxes == { x \in [p : [1..D -> Coord], s : [1..D -> Coord]] : \A i \in 1..D : x.p[i] + x.s[i] <= N }
Init == a \in Boxes /\ b \in Boxes
Next == FALSE /\ UNCHANGED <<a, b>>
\* doubled coordinates
Double(x) == [p |-> [i \in 1..D |-> 2 * x.p[i]], s |-> [i \in 1..D |-> 2 * x.s[i]]]
Points == [1..D -> 0..(2 * N)]
In(x) == { q \in Points : Contains(Double(x), q) }
InReal(x) == { q \in Points : ContainsReal(Double(x), q) }
Geometry == /\ Intersects(a, b) = (In(a) \intersect In(b) # {})
            /\ Positive(a) /\ Positive(b) => IntersectsReal(a, b) = (InReal(a) \intersect InReal(b) # {})
            /\ Intersects(a, b) => In(Intersection(a, b)) = In(a) \intersect In(b)
            /\ Intersects(a, b) = Intersects(b, a)
\* the difference exists: cutting off what is before and behind b in every dimension
RECURSIVE Cut(_, _, _)
Cut(x, y, i) == IF i > D THEN <<>> ELSE
  LET lo == Max(x.p[i], y.p[i]) hi == Min(Hi(x, i), Hi(y, i))
      part(f, t) == [p |-> [x.p EXCEPT ![i] = f], s |-> [x.s EXCEPT ![i] = t - f]] IN
  (IF x.p[i] < lo THEN <<part(x.p[i], lo)>> ELSE <<>>) \o (IF hi < Hi(x, i) THEN <<part(hi, Hi(x, i))>> ELSE <<>>)
    \o Cut(part(lo, hi), y, i + 1)
Diff == Positive(a) /\ Positive(b) =>
   LET l == IF IntersectsReal(a, b) THEN Cut(a, b, 1) ELSE <<a>> IN
   /\ IsDifference(l, a, b)
   /\ UNION { InReal(l[i]) : i \in 1..Len(l) } \intersect InReal(b) = {}
   \* every point of a is covered
   /\ In(a) \subseteq (UNION { In(l[i]) : i \in 1..Len(l) } \union In(b))
=============================================================================
