------------------------------ MODULE TypesMC ------------------------------
(* Enumerates descriptions and checks laws of the traits.                    *)
EXTENDS Types, Json
CONSTANTS Rets, Args, MaxArgs, UseFeatures, MaxParts
VARIABLES d, stage
vars == <<d, stage>>
Init == \/ stage = "kind" /\ \E k \in Kinds, n \in BOOLEAN, r \in Rets : d = [kind |-> k, ret |-> r, args |-> <<>>, noexc |-> n]
        \/ stage = "class" /\ \E f \in SUBSET UseFeatures, g \in SUBSET {"plus", "type"} : d = [f |-> f, g |-> g]
        \/ stage = "parts" /\ d = <<>>
        \/ stage = "list" /\ d = <<>>
Next == UNCHANGED stage /\
        \/ stage = "kind" /\ Len(d.args) < MaxArgs /\ \E a \in Args : d' = [d EXCEPT !.args = Append(@, a)]
        \/ stage = "parts" /\ Len(d) < MaxParts /\ \E p \in Parts : d' = Append(d, p)
        \/ stage = "list" /\ Len(d) < MaxArgs + 1 /\ \E a \in Args : d' = Append(d, a)
Emit == PrintT(ToJson(<<"D", stage, d>>))
\* every callable kind has a non-const or a const signature; parameters don't depend on the kind
Independent == stage = "kind" => \A k \in Kinds : LET e == [d EXCEPT !.kind = k] IN Traits(e).params = Traits(d).params /\ Traits(e).num = Len(Params(d))
Idempotent == stage = "kind" => \A i \in DOMAIN d.args : Adjusted(Adjusted(d.args[i])) = Adjusted(d.args[i])
Monotone == stage = "class" => \A e \in Expressions \ {"plusother"} : Valid(e, d.f, d.g) => Valid(e, UseFeatures, d.g)
Composed == stage = "parts" => (Copyable(d) => Movable(d)) /\ (Movable(d) <=> \A i \in DOMAIN d : Movable(<<d[i]>>))
=============================================================================
