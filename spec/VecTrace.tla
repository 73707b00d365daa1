------------------------------ MODULE VecTrace ------------------------------
(* Validates executions of nytl/vec.hpp, vec2.hpp, vec3.hpp and vecOps.hpp: *)
(* a program on four vectors.  Every record has the values of all vectors   *)
(* after the operation (m), as the code shows them.                         *)
EXTENDS Vec, TraceBase
Has(k) == k \in DOMAIN Rec
A == reg[Rec.a]
B == reg[Rec.b]
C == reg[Rec.c]
n == Len(reg[1])
TraceInit == l = 1 /\ reg = <<<<>>>> /\ typ = <<>>
Reset == Rec.op = "reset" /\ reg' = [r \in 1..Len(Rec.m) |-> ConvV(Rec.typ[r], Rec.m[r])] /\ typ' = Rec.typ
Change(o) ==
  CASE o = "load" -> Load(Rec.d, Rec.v)
    [] o = "+=" -> AddAssign(Rec.d, Rec.b)
    [] o = "-=" -> SubAssign(Rec.d, Rec.b)
    [] o = "*=" -> MulAssign(Rec.d, IF Has("f") THEN Rec.f ELSE B[Rec.i])
    [] o = "cw*=" -> CwMulAssign(Rec.d, Rec.b)
    [] o = "cw/=" -> CwDivAssign(Rec.d, Rec.b)
    [] o = "=" -> Assign(Rec.d, Rec.b)
    [] o = "swap" -> SwapRegs(Rec.d, Rec.b)
    [] o = "write" -> Write(Rec.d, Rec.i, Rec.x)
    \* in-place functions
    [] o = "abs" -> Set(Rec.d, Map(Abs, reg[Rec.d]))
    [] o = "floor" -> Set(Rec.d, Map(Floor, reg[Rec.d]))
    [] o = "ceil" -> Set(Rec.d, Map(Ceil, reg[Rec.d]))
    \* the exponent may be a component of the vector itself
    [] o = "powi" -> Set(Rec.d, Map(LAMBDA x : Pow(x, IF Has("i") THEN reg[Rec.d][Rec.i] \div U ELSE Rec.e), reg[Rec.d]))
    [] o = "powv" -> Set(Rec.d, [i \in 1..n |-> Pow(reg[Rec.d][i], Rec.e[i])])
    [] o = "clampv" -> Set(Rec.d, Clamp(reg[Rec.d], B, C))
    [] o = "clamps" -> Set(Rec.d, Clamp(reg[Rec.d], All(n, Rec.lo), All(n, Rec.hi)))
Changes == {"load", "+=", "-=", "*=", "cw*=", "cw/=", "=", "swap", "write", "abs", "floor", "ceil", "powi", "powv", "clampv", "clamps"}

\* results of functions that leave the registers alone; t: component type of the result
Fac == IF Has("f") THEN Rec.f ELSE A[1]
Value(o) ==
  CASE o = "+" -> Plus(A, B)
    [] o = "-" -> Minus(A, B)
    [] o = "neg" -> ConvV(typ[Rec.a], Neg(A))
    [] o = "pos" -> A
    [] o \in {"f*", "*f"} -> Scale(Rec.f, A)
    [] o = "+f" -> Plus(A, All(n, Rec.f))
    [] o = "f+" -> Plus(A, All(n, Rec.f))
    [] o = "-f" -> Minus(A, All(n, Rec.f))
    [] o = "f-" -> Minus(All(n, Rec.f), A)
    [] o = "/f" -> Map(LAMBDA x : Quot(Rec.t, x, Rec.f), A)
    [] o = "f/" -> Map(LAMBDA x : Quot(Rec.t, Rec.f, x), A)
    [] o = "cwmul" -> CwMul(A, B)
    [] o = "cwdiv" -> Map2(LAMBDA x, y : Quot(Rec.t, x, y), A, B)
    [] o = "max" -> CwMax(A, B)
    [] o = "min" -> CwMin(A, B)
    [] o = "maxs" -> CwMax(A, All(n, B[Rec.i]))
    [] o = "mins" -> CwMin(A, All(n, B[Rec.i]))
    [] o = "sum" -> Sum(A)
    [] o = "prod" -> Prod(A)
    [] o = "dot" -> Dot(A, B)
    [] o = "cross3" -> Cross3(A, B)
    [] o = "cross2" -> Cross2(A, B)
    [] o = "mirror" -> Mirror(A, B)
    [] o = "llnormal" -> <<A[2], -A[1]>>
    [] o = "rrnormal" -> <<A[2], -A[1]>>
    [] o = "rlnormal" -> <<-A[2], A[1]>>
    [] o = "lrnormal" -> <<-A[2], A[1]>>
    [] o = "conv" -> Map(LAMBDA x : Conv(Rec.t, x), Resize(A, Rec.dim))
    [] o = "vabs" -> Map(Abs, A)
    [] o = "vfloor" -> Map(Floor, A)
    [] o = "vceil" -> Map(Ceil, A)
    [] o = "vpowi" -> ConvV(typ[Rec.a], Map(LAMBDA x : Pow(x, Rec.e), A))
    [] o = "vpowv" -> ConvV(typ[Rec.a], [i \in 1..n |-> Pow(A[i], Rec.e[i])])
    [] o = "vclampv" -> Clamp(A, B, C)
    [] o = "vclamps" -> Clamp(A, All(n, Rec.lo), All(n, Rec.hi))
    [] o = "make" -> Rec.v
Ops == {"+", "-", "neg", "pos", "f*", "*f", "+f", "f+", "-f", "f-", "/f", "f/", "cwmul", "cwdiv", "max", "min", "maxs", "mins", "sum", "prod",
        "dot", "cross3", "cross2", "mirror", "llnormal", "lrnormal", "rlnormal", "rrnormal", "conv", "vabs", "vfloor", "vceil", "vpowi", "vpowv", "vclampv", "vclamps", "make"}

\* observations
RECURSIVE Join(_, _, _)
Join(v, sep, i) == ToString(v[i] \div U) \o (IF i = Len(v) THEN "" ELSE sep \o Join(v, sep, i + 1))
\* vectors of integer length v 2^e; the distance of two points with the difference v
WLength == LET s == Sum([i \in 1..Len(Rec.v) |-> Rec.v[i] * Rec.v[i]]) r == ISqrt(s) IN r * r = s /\ WRatio(Rec.x, r, 1, Rec.tol)
\* the unit vector in the direction of v 2^e
WNormal == LET v == Rec.v x == Rec.x IN
  /\ Len(x) = n /\ \A i \in 1..n : Sgn(x[i][1]) = Sgn(v[i])
  /\ WNear(Sum([i \in 1..n |-> x[i][1] * x[i][1]]) - W * W, Sum([i \in 1..n |-> 2 * x[i][1] * x[i][2]]), 60000, Rec.tol * W)
  /\ \A i, j \in 1..n : LET t == Abs(v[i]) + Abs(v[j]) IN WNear(x[i][1] * v[j] - x[j][1] * v[i], x[i][2] * v[j] - x[j][2] * v[i], t, Rec.tol * t)
See(o) ==
  CASE o = "eq" -> Rec.eq = (A = B) /\ Rec.ne = (A # B)
    [] o = "show" -> LET v == Rec.v IN
         /\ v.iter = A /\ v.citer = A /\ v.index = A /\ v.cindex = A /\ v.at = A /\ v.cat = A /\ v.data = A /\ v.cdata = A
         /\ v.fb = <<A[1], A[n]>> /\ v.cfb = <<A[1], A[n]>> /\ v.size = n
         /\ (\A i \in 1..Len(v.throws) : v.throws[i])
    [] o = "print" -> Rec.s = Rec.start \o Join(A, Rec.sep, 1) \o Rec.end
    \* integer components from here on (in units)
    [] o = "length" -> Near(Rec.x * Rec.x, Rec.k * Rec.k * (Dot(A, A) \div U), Rec.x + 1) /\ Rec.x >= 0
    [] o = "distance" -> LET d == Minus(A, B) IN Near(Rec.x * Rec.x, Rec.k * Rec.k * (Dot(d, d) \div U), Rec.x + 1) /\ Rec.x >= 0
    [] o = "normal" -> \A i \in 1..n : /\ Sgn(Rec.x[i]) = Sgn(A[i])
                                       /\ Near(Rec.x[i] * Rec.x[i] * (Dot(A, A) \div U), Rec.k * Rec.k * (A[i] \div U) * (A[i] \div U), (Abs(Rec.x[i]) + 1) * (Dot(A, A) \div U))
    \* the cosine of the angle
    [] o = "angle" -> LET len == ISqrt((Dot(A, A) \div U) * (Dot(B, B) \div U) * 4096) IN
         /\ Rec.x >= 0 /\ Rec.x <= Pi + 1
         /\ Near(FCos(Rec.x) * len, (Dot(A, B) \div U) * S * 64, 10 * len + S + 1)
    [] o = "wlength" -> WLength
    [] o = "wnormal" -> WNormal
    [] o = "fun" -> Len(Rec.x) = n /\ \A i \in 1..n : LET x == A[i] * (S \div U) y == Rec.x[i] z == Rec.z[i] IN
         CASE Rec.f = "sin" -> Near(y, FSin(x), 6)
           [] Rec.f = "cos" -> Near(y, FCos(x), 6)
           [] Rec.f = "tan" -> Near(FMul(y, FCos(x)), FSin(x), 8 + Abs(y) \div 800)
           [] Rec.f = "asin" -> y >= -HalfPi - 1 /\ y <= HalfPi + 1 /\ Near(FSin(y), x, 6)
           [] Rec.f = "acos" -> y >= 0 /\ y <= Pi + 1 /\ Near(FCos(y), x, 6)
           [] Rec.f = "atan" -> y > -HalfPi /\ y < HalfPi /\ Near(FMul(x, FCos(y)), FSin(y), 8 + Abs(x) \div 800)
           [] Rec.f = "sqrt" -> y >= 0 /\ Near(FMul(y, y), x, 2 * (y \div S) + 2)
           [] Rec.f = "exp" -> Near(y, FExp(x), 8 + Abs(FExp(x)) \div 800)
           [] Rec.f = "log" -> Near(FExp(y), x, 16 + x \div 500)
           \* z: of x + 1, and of 2 x
           [] Rec.f = "exp2" -> Near(z, 2 * y, 4) /\ Near(FMul(y, y), Rec.w[i], 8 + 4 * (y \div S)) /\ y > 0 /\ (x = 0 => y = S)
Sees == {"wlength", "wnormal", "eq", "show", "print", "length", "distance", "normal", "angle", "fun"}

Op == \/ Rec.op \in Changes /\ Change(Rec.op)
      \/ Rec.op \in Ops /\ Rec.res = Value(Rec.op) /\ Keep
      \/ Rec.op \in Sees /\ See(Rec.op) /\ Keep
TraceNext == Step /\ IF Rec.op = "reset" THEN Reset
                     ELSE Op /\ Rec.m = reg'
=============================================================================
