------------------------------- MODULE Linear -------------------------------
(* Linear algebra over the integers (property C16): determinants, inverses, *)
(* LU decompositions and echelon forms.  Real numbers are recorded rounded, *)
(* in multiples of 1/k; every comparison has the tolerance that follows.    *)
EXTENDS Fixed, Sequences, FiniteSets, TLC
Rows(m) == Len(m)
Cols(m) == Len(m[1])
\* (TLCEval: evaluated once, not for every access)
New(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Times(a, b) == New(Rows(a), Cols(b), LAMBDA i, j : SumTo([n \in 1..Cols(a) |-> a[i][n] * b[n][j]], Cols(a)))
Apply(a, v) == TLCEval([i \in 1..Rows(a) |-> SumTo([n \in 1..Len(v) |-> a[i][n] * v[n]], Len(v))])
Minor(a, i, j) == New(Rows(a) - 1, Cols(a) - 1, LAMBDA r, c : a[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1])
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
\* Laplace expansion along the first row
RECURSIVE Det(_)
Det(a) == IF Rows(a) = 1 THEN a[1][1]
          ELSE SumTo([j \in 1..Cols(a) |-> IF a[1][j] = 0 THEN 0 ELSE Sign(1 + j) * a[1][j] * Det(Minor(a, 1, j))], Cols(a))
\* the adjugate: A * Adj(A) = Det(A) * I
Adj(a) == IF Rows(a) = 1 THEN <<<<1>>>> ELSE New(Rows(a), Rows(a), LAMBDA i, j : Sign(i + j) * Det(Minor(a, j, i)))
SwapRow(a, i, k) == [a EXCEPT ![i] = a[k], ![k] = a[i]]

\* ------------------------------------------------------------ permutations
IsPerm(p) == /\ \A i \in 1..Rows(p) : \A j \in 1..Rows(p) : p[i][j] \in {0, 1}
             /\ \A i \in 1..Rows(p) : Cardinality({ j \in 1..Rows(p) : p[i][j] = 1 }) = 1
             /\ \A i \in 1..Rows(p) : Cardinality({ j \in 1..Rows(p) : p[j][i] = 1 }) = 1
To(p, i) == CHOOSE j \in 1..Rows(p) : p[i][j] = 1
PermSign(p) == Sign(Cardinality({ x \in (1..Rows(p)) \X (1..Rows(p)) : x[1] < x[2] /\ To(p, x[1]) > To(p, x[2]) }))

\* ------------------------------------------------------------ decompositions
UnitLower(x, k) == \A i, j \in 1..Rows(x) : (i = j => x[i][j] = k) /\ (i < j => x[i][j] = 0)
Upper(x) == \A i, j \in 1..Rows(x) : i > j => x[i][j] = 0
\* x, y in multiples of 1/k with x y = a
Product(x, y, a, k, u) ==
  \A i, j \in 1..Rows(a) :
    Near(SumTo([n \in 1..Rows(a) |-> x[i][n] * y[n][j]], Rows(a)), ((k * k) \div u) * a[i][j],
         SumTo([n \in 1..Rows(a) |-> (Abs(x[i][n]) + Abs(y[n][j])) \div 2 + 1], Rows(a)) + 1)
\* a in multiples of 1/u
IsLU(a, r, u) == /\ IsPerm(r.p) /\ r.sign = PermSign(r.p)
                 /\ UnitLower(r.l, r.k) /\ Upper(r.u)
                 /\ Product(r.l, r.u, Times(r.p, a), r.k, u)
\* x in multiples of 1/k is num / den
Quotient(x, num, den, k) == Near(x * den, num * k, Abs(den) + 1)

\* ------------------------------------------------------------ echelon forms
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN Abs(x) ELSE Gcd(y, Abs(x) % Abs(y))
RECURSIVE GcdTo(_, _)
GcdTo(v, n) == IF n = 0 THEN 0 ELSE Gcd(v[n], GcdTo(v, n - 1))
Reduce(v) == LET g == GcdTo(v, Len(v)) IN IF g = 0 THEN v ELSE TLCEval([i \in 1..Len(v) |-> IF v[i] >= 0 THEN v[i] \div g ELSE -((-v[i]) \div g)])
\* fraction-free elimination: rows above r are done, column c is next;
\* yields [m |-> matrix, pv |-> columns of the pivots]
RECURSIVE Eliminate(_, _, _, _)
Eliminate(a, r, c, pv) ==
  IF r > Rows(a) \/ c > Cols(a) THEN [m |-> a, pv |-> pv]
  ELSE LET cand == { i \in r..Rows(a) : a[i][c] # 0 } IN
    IF cand = {} THEN Eliminate(a, r, c + 1, pv)
    ELSE LET p == CHOOSE i \in cand : \A k \in cand : i <= k
             b == TLCEval(SwapRow(a, r, p))
             e == [i \in 1..Rows(a) |-> IF i = r THEN b[i] ELSE Reduce(TLCEval([j \in 1..Cols(a) |-> b[r][c] * b[i][j] - b[i][c] * b[r][j]]))]
         IN Eliminate(TLCEval(e), r + 1, c + 1, Append(pv, c))
Echelon(a) == TLCEval(Eliminate(TLCEval([i \in 1..Rows(a) |-> Reduce(a[i])]), 1, 1, <<>>))
Rank(a) == Len(Echelon(a).pv)
\* e (multiples of 1/k) is the reduced row echelon form of a
IsRREF(e, a, k) == LET x == Echelon(a) IN
  \A i \in 1..Rows(a), j \in 1..Cols(a) :
    IF i <= Len(x.pv) THEN Quotient(e[i][j], x.m[i][j], x.m[i][x.pv[i]], k) ELSE Near(e[i][j], 0, 1)
\* e is a row echelon form of a with leading ones: the pivots are in the same
\* columns and every row is the combination of the rows of the reduced form
\* that its values in these columns tell
IsREF(e, a, k) == LET x == Echelon(a) n == Len(x.pv) IN
  /\ \A i \in 1..n : Near(e[i][x.pv[i]], k, 1) /\ \A j \in 1..(x.pv[i] - 1) : Near(e[i][j], 0, 1)
  /\ \A i \in (n + 1)..Rows(a), j \in 1..Cols(a) : Near(e[i][j], 0, 1)
  /\ \A i \in 1..n, j \in 1..Cols(a) :
       \* sum of e[i][pv[r]] * x.m[r][j] / x.m[r][pv[r]]
       LET t(r) == e[i][x.pv[r]] * x.m[r][j] IN
       Near(e[i][j], SumTo([r \in 1..n |-> RDiv(Sgn(x.m[r][x.pv[r]]) * t(r), Abs(x.m[r][x.pv[r]]))], n),
            2 + SumTo([r \in 1..n |-> 1 + Abs(x.m[r][j]) \div Abs(x.m[r][x.pv[r]])], n))
\* pivoting: a row with the largest candidate is put into place
IsPivot(out, ret, a, row, col, after) ==
  LET cand == IF after THEN row..Rows(a) ELSE 1..Rows(a) IN
  \E p \in cand : /\ \A i \in cand : Abs(a[i][col]) <= Abs(a[p][col])
                  /\ out = SwapRow(a, row, p) /\ ret = a[p][col]
=============================================================================
