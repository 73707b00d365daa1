-------------------------------- MODULE Ring --------------------------------
(* Vectors and matrices of numbers far beyond TLC's integers (C14, C15):     *)
(* a number is the sequence of its residues for four coprime moduli, their   *)
(* product exceeds 2^59, so numbers below 2^58 with the same residues are    *)
(* the same (and larger ones practically are).  Sums and products are        *)
(* computed residue by residue.  Vectors are matrices with one column.       *)
EXTENDS Integers, Sequences
Moduli == <<32768, 32767, 32765, 32763>>
Ks == 1..4
Num(x) == [k \in Ks |-> x % Moduli[k]]
RAdd(x, y) == [k \in Ks |-> (x[k] + y[k]) % Moduli[k]]
RNeg(x) == [k \in Ks |-> (-x[k]) % Moduli[k]]
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == [k \in Ks |-> (x[k] * y[k]) % Moduli[k]]
Zero == Num(0)
One == Num(1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN Zero ELSE RAdd(s[1], Sum(Tail(s)))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN One ELSE RMul(s[1], Prod(Tail(s)))
---------------------------------------------------------------------------
Rows(m) == Len(m)
Cols(m) == Len(m[1])
New(r, c, f(_, _)) == [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]
Like(m, f(_, _)) == New(Rows(m), Cols(m), f)
Scalar(x) == <<<<x>>>>
Plus(a, b) == Like(a, LAMBDA i, j : RAdd(a[i][j], b[i][j]))
Minus(a, b) == Like(a, LAMBDA i, j : RSub(a[i][j], b[i][j]))
Neg(a) == Like(a, LAMBDA i, j : RNeg(a[i][j]))
Scale(a, x) == Like(a, LAMBDA i, j : RMul(a[i][j], x))
Entries(a, b) == Like(a, LAMBDA i, j : RMul(a[i][j], b[i][j]))
Times(a, b) == New(Rows(a), Cols(b), LAMBDA i, j : Sum([n \in 1..Cols(a) |-> RMul(a[i][n], b[n][j])]))
Transpose(a) == New(Cols(a), Rows(a), LAMBDA i, j : a[j][i])
Identity(n) == New(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
Diagonal(a) == [i \in 1..Rows(a) |-> a[i][i]]
Column(a, j) == [i \in 1..Rows(a) |-> <<a[i][j]>>]
Row(a, i) == Transpose(<<a[i]>>)
Resize(a, r, c) == New(r, c, LAMBDA i, j : IF i <= Rows(a) /\ j <= Cols(a) THEN a[i][j] ELSE Zero)
Cross2(a, b) == RSub(RMul(a[1][1], b[2][1]), RMul(a[2][1], b[1][1]))
Cross3(a, b) == [i \in 1..3 |-> LET p == (i % 3) + 1  q == ((i + 1) % 3) + 1 IN <<RSub(RMul(a[p][1], b[q][1]), RMul(a[q][1], b[p][1]))>>]
---------------------------------------------------------------------------
\* the result of the function f; c: which components the order of the numbers selects
Result(f, a, b, x, r, c) ==
  CASE f = "+" -> Plus(a, b)
    [] f = "-" -> Minus(a, b)
    [] f = "neg" -> Neg(a)
    [] f = "same" -> a
    [] f = "scale" -> Scale(a, x)
    [] f = "plus" -> Like(a, LAMBDA i, j : RAdd(a[i][j], x))
    [] f = "minus" -> Like(a, LAMBDA i, j : RSub(a[i][j], x))
    [] f = "from" -> Like(a, LAMBDA i, j : RSub(x, a[i][j]))
    [] f = "entries" -> Entries(a, b)
    [] f = "times" -> Times(a, b)
    [] f = "dot" -> Times(Transpose(a), b)
    [] f = "sum" -> Scalar(Sum([i \in 1..Rows(a) |-> a[i][1]]))
    [] f = "prod" -> Scalar(Prod([i \in 1..Rows(a) |-> a[i][1]]))
    [] f = "mirror" -> Minus(Plus(a, a), b)
    [] f = "cross2" -> Scalar(Cross2(a, b))
    [] f = "cross3" -> Cross3(a, b)
    [] f = "transpose" -> Transpose(a)
    [] f = "trace" -> Scalar(Sum(Diagonal(a)))
    [] f = "diag" -> Scalar(Prod(Diagonal(a)))
    [] f = "row" -> Row(a, r)
    [] f = "col" -> Column(a, r)
    [] f = "conv" -> Resize(a, r, c)
    [] f = "identity" -> Identity(r)
    [] f = "scalar" -> Scalar(x)
=============================================================================
