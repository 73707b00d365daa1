------------------------------ MODULE NamesMC ------------------------------
(* Enumerates translation units and checks laws of the deduced types.        *)
EXTENDS Names, Json
CONSTANTS MaxIncludes, MaxTypes
VARIABLES unit, types
vars == <<unit, types>>
Scalars == {Scalar(s) : s \in Suffixes}
Init == unit = <<>> /\ types = <<>>
Next == \/ types = <<>> /\ Len(unit) < MaxIncludes /\ UNCHANGED types /\ \E h \in Headers : unit' = Append(unit, h)
        \/ unit = <<>> /\ Len(types) < MaxTypes /\ UNCHANGED unit /\ \E s \in Scalars : types' = Append(types, s)
Emit == unit # <<>> => PrintT(ToJson(unit))
Order == unit # <<>> => \A i \in DOMAIN unit : Provided(<<unit[i]>>) \subseteq Provided(unit) /\ Provided(Append(unit, unit[i])) = Provided(unit)
\* a common type exists, holds all floating point values, and is the type itself for equal ones
Deduction == types # <<>> =>
  LET c == Common(types) IN
  /\ c \in Scalars
  /\ (\A i \in DOMAIN types : types[i] = types[1]) => c = types[1]
  /\ (\E i \in DOMAIN types : types[i][1] = "float") <=> c[1] = "float"
  /\ \A i \in DOMAIN types : (c[1] = types[i][1] \/ types[i][1] = "bool") => c[2] >= types[i][2]
  /\ Len(types) = 2 => Common(<<types[2], types[1]>>) = c
=============================================================================
