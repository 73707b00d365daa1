------------------------------- MODULE Types -------------------------------
(* Type traits (property C21).  Callables are described by records           *)
(*   kind     what is callable                                               *)
(*   ret      return type                                                    *)
(*   args     parameter types as written in the declaration                  *)
(*   noexc    declared noexcept                                              *)
(* and the traits are functions of the description.                          *)
EXTENDS Integers, Sequences, TLC
Kinds == {"raw", "rawconst", "pointer", "reference", "member", "constmember", "functor", "constfunctor", "derived",
          "functorref", "constfunctorrref", "lambda", "mutablelambda"}
\* the type of a parameter: top-level const is dropped, arrays and functions become pointers
Adjusted(a) == CASE a = "const int" -> "int" [] a = "int[3]" -> "int*" [] a = "const char[]" -> "const char*" [] a = "int(int)" -> "int(*)(int)"
                 [] a = "const Cls" -> "Cls" [] a = "int* const" -> "int*" [] OTHER -> a
Params(d) == [i \in 1..Len(d.args) |-> Adjusted(d.args[i])]
\* kinds whose check and whose constness are specified
CheckedKinds == Kinds \ {"rawconst", "functorref", "constfunctorrref"}
ConstKinds == {"rawconst", "pointer", "constmember", "constfunctor", "constfunctorrref", "lambda"}
VagueKinds == {"reference"}
Traits(d) == [ret |-> d.ret, params |-> Params(d), num |-> Len(d.args), const |-> d.kind \in ConstKinds]
\* the class of member function pointers
Class(d) == IF d.kind = "member" THEN "Cls" ELSE "const Cls"
---------------------------------------------------------------------------
\* Classes with a set of features; expressions need features (or their absence)
Features == {"method", "type", "plus", "index", "call", "star"}
Expressions == {"method", "constmethod", "type", "plus", "plusother", "index", "call", "callother", "star", "both", "nested"}
\* well-formed for an object of a class with the features f (and another one with the features g)
Valid(e, f, g) ==
  CASE e = "method" -> "method" \in f
    \* the method is not const
    [] e = "constmethod" -> FALSE
    [] e = "type" -> "type" \in f
    [] e = "plus" -> "plus" \in f
    \* f + g: operands of the same class only
    [] e = "plusother" -> "plus" \in f /\ f = g
    [] e = "index" -> "index" \in f
    [] e = "call" -> "call" \in f
    [] e = "callother" -> "call" \in f /\ "type" \in g
    [] e = "star" -> "star" \in f
    [] e = "both" -> "method" \in f /\ "index" \in f
    \* *f yields int: no member type
    [] e = "nested" -> FALSE
\* Expressions on a value of type q C where C is a class with (ref-)qualified member functions, int or void:
\* q is the qualification and decides the value category (not a reference: an rvalue)
Qualifiers == {"", "const", "&", "const &", "&&", "const &&"}
IsConstQ(q) == q \in {"const", "const &", "const &&"}
IsLvalueQ(q) == q \in {"&", "const &"}
IsReferenceQ(q) == q \notin {"", "const"}
CategoryExpressions == {"lv", "clv", "rv", "crv", "plain", "cplain", "takelv", "takeclv", "takerv", "takecrv", "inc", "member", "assign", "pointer", "array"}
ValidCategory(e, c, q) ==
  LET mutable == ~IsConstQ(q) lvalue == IsLvalueQ(q) IN
  IF c = "void" THEN e = "pointer"
  ELSE IF c = "int" /\ e \in {"lv", "clv", "rv", "crv", "plain", "cplain", "member"} THEN FALSE
  ELSE CASE e \in {"lv", "takelv", "inc"} -> lvalue /\ mutable
         [] e \in {"clv", "cplain", "takeclv", "member"} -> TRUE
         [] e \in {"rv", "takerv"} -> ~lvalue /\ mutable
         [] e \in {"crv", "takecrv"} -> ~lvalue
         [] e = "plain" -> mutable
         [] e = "assign" -> mutable /\ (c = "int" => lvalue)
         [] e \in {"pointer", "array"} -> ~IsReferenceQ(q)
---------------------------------------------------------------------------
\* What can be done with objects of a class is what can be done with all its parts
Parts == {"copyable", "movable", "fixed", "NonCopyable", "NonMovable"}
CanMove(p) == p \notin {"fixed", "NonMovable"}
CanCopy(p) == p = "copyable"
Copyable(c) == \A i \in DOMAIN c : CanCopy(c[i])
Movable(c) == \A i \in DOMAIN c : CanMove(c[i])
---------------------------------------------------------------------------
Last(s) == s[Len(s)]
=============================================================================
