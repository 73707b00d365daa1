----------------------------- MODULE NamesTrace -----------------------------
(* Validates what the compiler says about the named types and headers.        *)
EXTENDS Names, TraceBase
TraceInit == l = 1
Scalars(s) == [i \in DOMAIN s |-> Scalar(s[i])]
Op(o) ==
  CASE o = "alias" ->
         LET v == Scalar(Rec.suffix) IN
         /\ Rec.family = Rec.name /\ Rec.dims = Rec.want /\ Rec.value = v
         /\ Rec.size = Count(Rec.name, Rec.want) * v[2] /\ Rec.align = v[2] /\ Rec.plain
    [] o = "simplex" ->
         LET v == Scalar(Rec.suffix)  n == SimplexDims(Rec.name, Rec.space) IN
         /\ Rec.family = "Simplex" /\ Rec.dims = n /\ Rec.value = v /\ Rec.size = Count("Simplex", n) * v[2] /\ Rec.plain
         /\ Rec.spaceDim = n[1] /\ Rec.simplexDim = n[2] /\ Rec.pointCount = n[2] + 1 /\ Rec.points = n[2] + 1 /\ Rec.same
    [] o = "statics" ->
         /\ Rec.dims = Rec.want
         /\ Rec.value = Scalar(Rec.suffix)
    \* Vec{...} of values of the types, Rect{a, b} of two vectors
    [] o = "deduced" -> Rec.family = Rec.name /\ Rec.dims = Rec.want /\ Rec.value = Common(Scalars(Rec.types))
    [] o = "extent" -> Rec.same /\ IF Rec.fixed THEN Rec.extent = Rec.n ELSE Rec.dynamic
    [] o = "connectable" -> Rec.owner /\ Rec.source = (IF Rec.tracked THEN "TrackedConnectionID" ELSE "ConnectionID")
    [] o = "connection" -> Rec.source = (IF Rec.tracked THEN "TrackedConnectionID" ELSE "ConnectionID") /\ Rec.id = Rec.source /\ Rec.owner = (IF Rec.unique THEN "UniqueConnectionT" ELSE "ConnectionT") /\ Rec.types
    [] o = "use" ->
         LET t == Rec.type IN
         /\ Rec.copy = CanCopy(t) /\ Rec.copyassign = CanCopy(t) /\ Rec.copyvar = CanCopy(t) /\ Rec.copyanyvar = CanCopy(t) /\ Rec.move = CanMove(t)
         \* everything is offered as a function to callbacks' assignment (but another callback then is none)
         /\ (~Assigned(t) => Rec.moveassign = CanMove(t))
         /\ (Kind(t) \in {"plain", "unique"} => Rec.nothrow)
         /\ (Kind(t) = "plain" => Rec.bytewise) /\ Rec.destroy
    [] o = "convert" -> Rec.implicit = Converts(Rec.from, Rec.to) /\ Rec.moved = Moves(Rec.from, Rec.to)
    \* conversions that can lose something have to be written down
    [] o = "cast" -> Rec.implicit = (Rec.from = Rec.to) /\ Rec.explicit = Casts(Rec.from, Rec.to)
    [] o = "unit" -> Rec.compiled /\ Range(Rec.usable) = Provided(Rec.unit)
    [] o = "program" -> Rec.linked
TraceNext == Step /\ Op(Rec.op)
=============================================================================
