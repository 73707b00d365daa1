-------------------------------- MODULE Vec --------------------------------
(* Vectors (property C14).  The state is the memory of a program: registers *)
(* that hold vectors and have a component type (see Components).            *)
EXTENDS Components
VARIABLES reg, typ

\* ------------------------------------------------------------ vectors
Map(Op(_), v) == [i \in 1..Len(v) |-> Op(v[i])]
Map2(Op(_, _), v, w) == [i \in 1..Len(v) |-> Op(v[i], w[i])]
Plus(v, w) == [i \in 1..Len(v) |-> v[i] + w[i]]
Minus(v, w) == [i \in 1..Len(v) |-> v[i] - w[i]]
Neg(v) == [i \in 1..Len(v) |-> -v[i]]
Scale(f, v) == [i \in 1..Len(v) |-> Mul(v[i], f)]
CwMul(v, w) == [i \in 1..Len(v) |-> Mul(v[i], w[i])]
CwMax(v, w) == [i \in 1..Len(v) |-> Max(v[i], w[i])]
CwMin(v, w) == [i \in 1..Len(v) |-> Min(v[i], w[i])]
Clamp(v, lo, hi) == CwMin(CwMax(v, lo), hi)
All(d, x) == [i \in 1..d |-> x]
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v, n - 1)
Sum(v) == SumTo(v, Len(v))
RECURSIVE ProdTo(_, _)
ProdTo(v, n) == IF n = 0 THEN U ELSE Mul(ProdTo(v, n - 1), v[n])
Prod(v) == ProdTo(v, Len(v))
Dot(v, w) == Sum([i \in 1..Len(v) |-> v[i] * w[i]]) \div U
Cross3(v, w) == << Mul(v[2], w[3]) - Mul(v[3], w[2]), Mul(v[3], w[1]) - Mul(v[1], w[3]), Mul(v[1], w[2]) - Mul(v[2], w[1]) >>
Cross2(v, w) == Mul(v[1], w[2]) - Mul(v[2], w[1])
Mirror(m, p) == Plus(m, Minus(m, p))
Resize(v, d) == [i \in 1..d |-> IF i <= Len(v) THEN v[i] ELSE 0]
Floor(x) == (x \div U) * U
Ceil(x) == -((-x) \div U) * U
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN U ELSE Mul(Pow(x, n - 1), x)
Swap(v, i, j) == [v EXCEPT ![i] = v[j], ![j] = v[i]]

\* ------------------------------------------------------------ actions
ConvV(t, v) == Map(LAMBDA x : Conv(t, x), v)
Set(d, v) == reg' = [reg EXCEPT ![d] = ConvV(typ[d], v)] /\ UNCHANGED typ
Load(d, v) == Set(d, v)
AddAssign(d, b) == Set(d, Plus(reg[d], reg[b]))
SubAssign(d, b) == Set(d, Minus(reg[d], reg[b]))
\* scaling by a value, or by component i of register b as it is before
MulAssign(d, f) == Set(d, Scale(f, reg[d]))
CwMulAssign(d, b) == Set(d, CwMul(reg[d], reg[b]))
QType(x, y) == IF x = "f" \/ y = "f" THEN "f" ELSE "i"
CwDivAssign(d, b) == Set(d, Map2(LAMBDA x, y : Quot(QType(typ[d], typ[b]), x, y), reg[d], reg[b]))
Assign(d, b) == Set(d, reg[b])
Write(d, i, x) == reg' = [reg EXCEPT ![d][i] = Conv(typ[d], x)] /\ UNCHANGED typ
SwapRegs(d, b) == reg' = [reg EXCEPT ![d] = reg[b], ![b] = reg[d]] /\ UNCHANGED typ
Keep == UNCHANGED <<reg, typ>>
=============================================================================
