----------------------------- MODULE TypesTrace -----------------------------
(* Validates what the traits say about the types of the descriptions d.       *)
EXTENDS Types, TraceBase
TraceInit == l = 1
Set(s) == {s[i] : i \in DOMAIN s}
Op(o) ==
  LET d == Rec.d IN
  CASE o = "kind" -> LET t == Traits(d) IN
         /\ (d.kind \in CheckedKinds => Rec.callable)
         /\ Rec.ret = t.ret /\ Rec.params = t.params /\ Rec.tuple = t.params /\ Rec.num = t.num
         /\ (d.kind \notin VagueKinds => Rec.const = t.const /\ Rec.sigconst = t.const)
         /\ Rec.const = Rec.sigconst
         /\ Rec.sigret = t.ret /\ Rec.sigparams = t.params
         /\ (d.kind \in {"member", "constmember"} => Rec.class = Class(d))
    [] o = "not callable" -> ~Rec.callable
    [] o = "class" -> \A e \in Expressions : Rec.valid[e] = Valid(e, Set(d.f), Set(d.g))
    [] o = "category" -> \A e \in CategoryExpressions : Rec.valid[e] = ValidCategory(e, Rec.class, Rec.q)
    [] o = "parts" -> /\ Rec.copy = Copyable(d) /\ Rec.copyassign = Copyable(d) /\ Rec.move = Movable(d) /\ Rec.moveassign = Movable(d)
                      /\ Rec.nothrow = (Movable(d) \/ Copyable(d)) /\ Rec.create /\ Rec.destroy
    [] o = "helper" -> ~Rec.copy /\ ~Rec.copyassign /\ ~Rec.move /\ ~Rec.moveassign /\ ~Rec.create
    [] o = "list" -> Rec.last = Last(d)
    [] o = "variadic" -> Rec.first = d[1]
    \* value category and identity are kept
    [] o = "templatize" -> Rec.same /\ Rec.type = Rec.given
TraceNext == Step /\ Op(Rec.op)
=============================================================================
