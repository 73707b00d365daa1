-------------------------------- MODULE Mat --------------------------------
(* Matrices (property C15): sequences of rows.  Vectors are matrices with   *)
(* one column.  The state is the memory of a program, registers that hold   *)
(* matrices of fixed shape and entry type.                                  *)
EXTENDS Components
VARIABLES reg, typ

Rows(m) == Len(m)
Cols(m) == Len(m[1])
New(r, c, f(_, _)) == [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]
Like(m, f(_, _)) == New(Rows(m), Cols(m), f)
Plus(a, b) == Like(a, LAMBDA i, j : a[i][j] + b[i][j])
Minus(a, b) == Like(a, LAMBDA i, j : a[i][j] - b[i][j])
Neg(a) == Like(a, LAMBDA i, j : -a[i][j])
Scale(f, a) == Like(a, LAMBDA i, j : Mul(f, a[i][j]))
RECURSIVE DotTo(_, _, _, _, _)
DotTo(a, b, i, j, n) == IF n = 0 THEN 0 ELSE a[i][n] * b[n][j] + DotTo(a, b, i, j, n - 1)
Times(a, b) == New(Rows(a), Cols(b), LAMBDA i, j : DotTo(a, b, i, j, Cols(a)) \div U)
Transpose(a) == New(Cols(a), Rows(a), LAMBDA i, j : a[j][i])
Identity(d) == New(d, d, LAMBDA i, j : IF i = j THEN U ELSE 0)
Ones(a) == Like(a, LAMBDA i, j : U)
RECURSIVE TraceTo(_, _)
TraceTo(a, n) == IF n = 0 THEN 0 ELSE a[n][n] + TraceTo(a, n - 1)
MTrace(a) == TraceTo(a, Rows(a))
RECURSIVE DiagTo(_, _)
DiagTo(a, n) == IF n = 0 THEN U ELSE Mul(DiagTo(a, n - 1), a[n][n])
DiagProduct(a) == DiagTo(a, Rows(a))
Row(a, i) == <<a[i]>>
Col(a, j) == [i \in 1..Rows(a) |-> <<a[i][j]>>]
SetRow(a, i, v) == [a EXCEPT ![i] = [j \in 1..Cols(a) |-> v[j][1]]]
SetCol(a, j, v) == [i \in 1..Rows(a) |-> [a[i] EXCEPT ![j] = v[i][1]]]
SwapRow(a, i, k) == [a EXCEPT ![i] = a[k], ![k] = a[i]]
SwapCol(a, j, k) == [i \in 1..Rows(a) |-> [a[i] EXCEPT ![j] = a[i][k], ![k] = a[i][j]]]
Resize(a, r, c) == New(r, c, LAMBDA i, j : IF i <= Rows(a) /\ j <= Cols(a) THEN a[i][j] ELSE 0)
Symmetric(a) == \A i, j \in 1..Rows(a) : a[i][j] = a[j][i]
ConvM(t, m) == Like(m, LAMBDA i, j : Conv(t, m[i][j]))

\* ------------------------------------------------------------ actions
Set(d, m) == reg' = [reg EXCEPT ![d] = ConvM(typ[d], m)] /\ UNCHANGED typ
AddAssign(d, b) == Set(d, Plus(reg[d], reg[b]))
SubAssign(d, b) == Set(d, Minus(reg[d], reg[b]))
MulAssign(d, b) == Set(d, Times(reg[d], reg[b]))
ScaleAssign(d, f) == Set(d, Scale(f, reg[d]))
Assign(d, b) == Set(d, reg[b])
Write(d, i, j, x) == Set(d, [reg[d] EXCEPT ![i][j] = x])
Keep == UNCHANGED <<reg, typ>>
=============================================================================
