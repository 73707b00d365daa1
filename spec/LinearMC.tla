------------------------------ MODULE LinearMC ------------------------------
(* Laws of the definitions, for all small integer matrices.                 *)
EXTENDS Linear, TLC
CONSTANTS R, C, N
VARIABLE a
Init == a \in [1..R -> [1..C -> (-N)..N]]
Next == FALSE /\ a' = a
Id(d) == New(d, d, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Scaled(m, f) == New(Rows(m), Cols(m), LAMBDA i, j : f * m[i][j])
Transpose(m) == New(Cols(m), Rows(m), LAMBDA i, j : m[j][i])
Square == R = C =>
  /\ Times(a, Adj(a)) = Scaled(Id(R), Det(a)) /\ Times(Adj(a), a) = Scaled(Id(R), Det(a))
  /\ Det(Transpose(a)) = Det(a)
  /\ \A i, k \in 1..R : i # k => Det(SwapRow(a, i, k)) = -Det(a)
  /\ (Det(a) # 0) = (Rank(a) = R)
  /\ (IsPerm(a) => PermSign(a) = Det(a))
Form == LET x == Echelon(a) IN
  /\ Rank(a) = Rank(Transpose(a))
  \* the rows are reduced: unit columns at the pivots, zero rows at the end
  /\ \A i \in 1..Len(x.pv) : \A r \in 1..R : (x.m[r][x.pv[i]] # 0) = (r = i)
  /\ \A i \in 1..(Len(x.pv) - 1) : x.pv[i] < x.pv[i + 1]
  /\ \A i \in 1..Len(x.pv) : \A j \in 1..(x.pv[i] - 1) : x.m[i][j] = 0
  /\ \A i \in (Len(x.pv) + 1)..R : \A j \in 1..C : x.m[i][j] = 0
  \* the same row space: adding the rows does not raise the rank
  /\ Rank(a \o x.m) = Len(x.pv)
Pivots == \A row \in 1..R, col \in 1..C, after \in BOOLEAN :
  \E p \in 1..R : IsPivot(SwapRow(a, row, p), a[p][col], a, row, col, after)
Quot == Quotient(683, 2, 3, 1024) /\ Quotient(-683, 2, -3, 1024) /\ ~Quotient(690, 2, 3, 1024)
=============================================================================
