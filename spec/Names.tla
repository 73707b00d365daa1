------------------------------- MODULE Names -------------------------------
(* The named types of nytl (property C22): what the aliases stand for, what   *)
(* the library's types can be used for, which type is deduced from values,    *)
(* and which headers can be used together.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
---------------------------------------------------------------------------
\* scalars: a kind and a number of bytes
Suffixes == {"f", "d", "i", "ui", "b", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
Scalar(s) ==
  CASE s = "f" -> <<"float", 4>> [] s = "d" -> <<"float", 8>> [] s = "b" -> <<"bool", 1>>
    [] s \in {"i", "i32"} -> <<"signed", 4>> [] s \in {"ui", "u32"} -> <<"unsigned", 4>>
    [] s = "i8" -> <<"signed", 1>> [] s = "i16" -> <<"signed", 2>> [] s = "i64" -> <<"signed", 8>>
    [] s = "u8" -> <<"unsigned", 1>> [] s = "u16" -> <<"unsigned", 2>> [] s = "u64" -> <<"unsigned", 8>>
\* the common type of two arithmetic types: the usual conversions, but none between equal types
Promoted(a) == IF a[1] # "float" /\ a[2] < 4 THEN <<"signed", 4>> ELSE a
Max(x, y) == IF x > y THEN x ELSE y
Usual(a, b) ==
  IF a[1] = "float" \/ b[1] = "float" THEN <<"float", Max(IF a[1] = "float" THEN a[2] ELSE 0, IF b[1] = "float" THEN b[2] ELSE 0)>>
  ELSE LET p == Promoted(a)  q == Promoted(b)  n == Max(p[2], q[2]) IN
       <<IF \E x \in {p, q} : x[1] = "unsigned" /\ x[2] = n THEN "unsigned" ELSE "signed", n>>
Common2(a, b) == IF a = b THEN a ELSE Usual(a, b)
RECURSIVE Common(_)
Common(s) == IF Len(s) = 1 THEN s[1] ELSE Common2(Common(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
---------------------------------------------------------------------------
\* number of values stored by a type with the given dimensions
Count(family, dims) ==
  CASE family = "Vec" -> dims[1]
    [] family = "Mat" -> dims[1] * dims[2]
    [] family = "Rect" -> 2 * dims[1]
    \* dimension of the space and of the simplex
    [] family = "Simplex" -> dims[1] * (dims[2] + 1)
    [] family = "Quaternion" -> 4
\* dimensions of a simplex with the given name in a space with d dimensions
SimplexDims(name, d) == <<d, CASE name = "Line" -> 1 [] name = "Triangle" -> 2 [] name = "Tetrahedron" -> 3 [] name = "Simplex" -> d>>
---------------------------------------------------------------------------
\* What types can be used for.
\*   plain   copied byte by byte     value  copied and moved
\*   unique  only moved              fixed  neither
Kind(t) ==
  CASE t \in {"Vec", "Mat", "Rect", "Simplex", "Quaternion", "Flags", "span", "ConnectionID", "Connection"} -> "plain"
    [] t \in {"StringParam", "TrackedConnectionID", "TrackedConnection", "Approx", "LUDecomposition", "Cloneable"} -> "value"
    [] t \in {"UniqueConnection", "TrackedUniqueConnection"} -> "unique"
    [] t \in {"Callback", "TrackedCallback", "RecursiveCallback", "TrackedRecursiveCallback", "ScopeGuard", "SuccessGuard", "ExceptionGuard"} -> "fixed"
CanCopy(t) == Kind(t) \in {"plain", "value"}
Assigned(t) == t \in {"Callback", "TrackedCallback", "RecursiveCallback", "TrackedRecursiveCallback"}
CanMove(t) == Kind(t) # "fixed"
\* implicit conversions between connections: ownership can be taken over, but is only given
\* away explicitly; connections with different kinds of ids don't mix
Converts(f, t) == \/ f = t /\ ~f.unique
                  \/ f.tracked = t.tracked /\ ~f.unique /\ t.unique
\* moving an owner is no implicit copy of it
Moves(f, t) == Converts(f, t) \/ f = t
\* written conversions of vectors, boxes, matrices and simplices: to any dimensions and
\* values, but the dimension of a simplex itself is kept
Casts(f, t) == f.family = t.family /\ (f.family = "Simplex" => f.dims[2] = t.dims[2])
---------------------------------------------------------------------------
Headers == {"approx", "approxVec", "bytes", "callback", "clone", "connection", "flags", "functionTraits", "fwd", "fwd/flags", "fwd/mat", "fwd/rect",
  "fwd/simplex", "fwd/span", "fwd/vec", "mat", "matOps", "math", "nonCopyable", "quaternion", "rect", "rectOps", "recursiveCallback", "scope", "simplex",
  "span", "stringParam", "tmpUtil", "transform", "utf", "vec", "vec2", "vec3", "vecOps"}
Range(s) == {s[i] : i \in DOMAIN s}
\* a translation unit provides what its headers provide, whatever their order and number
Provided(unit) == Range(unit)
=============================================================================
