------------------------------ MODULE MatTrace ------------------------------
(* Validates executions of nytl/mat.hpp and matOps.hpp (matrix arithmetic   *)
(* and access).  m: all registers after the operation.                      *)
EXTENDS Mat, TraceBase
Has(k) == k \in DOMAIN Rec
A == reg[Rec.a]
B == reg[Rec.b]
D == reg[Rec.d]
TraceInit == l = 1 /\ reg = <<<<>>>> /\ typ = <<>>
Reset == Rec.op = "reset" /\ reg' = Rec.m /\ typ' = Rec.typ
Change(o) ==
  CASE o = "load" -> Set(Rec.d, Rec.v)
    [] o = "+=" -> AddAssign(Rec.d, Rec.b)
    [] o = "-=" -> SubAssign(Rec.d, Rec.b)
    [] o = "*=" -> MulAssign(Rec.d, Rec.b)
    [] o = "f*=" -> ScaleAssign(Rec.d, IF Has("f") THEN Rec.f ELSE B[Rec.i][Rec.j])
    [] o = "=" -> Assign(Rec.d, Rec.b)
    [] o = "write" -> Write(Rec.d, Rec.i, Rec.j, Rec.x)
    [] o = "setcol" -> Set(Rec.d, SetCol(D, Rec.j, B))
    [] o = "setrow" -> Set(Rec.d, SetRow(D, Rec.i, B))
    [] o = "rowadd" -> Set(Rec.d, [D EXCEPT ![Rec.i] = [j \in 1..Cols(D) |-> D[Rec.i][j] + B[Rec.k][j]]])
    [] o = "swaprow" -> Set(Rec.d, SwapRow(D, Rec.i, Rec.k))
    [] o = "swapcol" -> Set(Rec.d, SwapCol(D, Rec.j, Rec.k))
    [] o = "swap" -> reg' = [reg EXCEPT ![Rec.d] = B, ![Rec.b] = D] /\ UNCHANGED typ
    [] o = "one" -> Set(Rec.d, Ones(D))
    [] o = "identity" -> Set(Rec.d, Identity(Rows(D)))
Changes == {"load", "+=", "-=", "*=", "f*=", "=", "write", "setcol", "setrow", "rowadd", "swaprow", "swapcol", "swap", "one", "identity"}
Value(o) ==
  CASE o = "+" -> Plus(A, B)
    [] o = "-" -> Minus(A, B)
    [] o = "neg" -> ConvM(typ[Rec.a], Neg(A))
    [] o = "*" -> Times(A, B)
    [] o = "f*" -> Scale(Rec.f, A)
    [] o = "transpose" -> Transpose(A)
    [] o = "col" -> Col(A, Rec.j)
    [] o = "row" -> Transpose(Row(A, Rec.i))
    [] o = "conv" -> ConvM(Rec.t, Resize(A, Rec.r, Rec.c))
    [] o = "id" -> Identity(Rec.n)
    [] o = "trace" -> <<<<MTrace(A)>>>>
    [] o = "diag" -> <<<<DiagProduct(A)>>>>
Ops == {"+", "-", "neg", "*", "f*", "transpose", "col", "row", "conv", "id", "trace", "diag"}
RECURSIVE Blanks(_), Join(_, _, _, _), Lines(_, _, _, _)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
\* values are filled up to the given number of characters
Padded(s, w) == Blanks(w - Len(s)) \o s
Join(v, sep, w, i) == Padded(ToString(v[i] \div U), w) \o (IF i = Len(v) THEN "" ELSE sep \o Join(v, sep, w, i + 1))
Lines(m, sp, w, i) == IF i > Rows(m) THEN "" ELSE sp \o "(" \o Join(m[i], ", ", w, 1) \o ")_" \o Lines(m, sp, w, i + 1)
See(o) ==
  CASE o = "eq" -> Rec.eq = (A = B) /\ Rec.ne = (A # B)
    [] o = "sym" -> Rec.x = Symmetric(A)
    [] o = "show" -> /\ Rec.index = A /\ Rec.cindex = A /\ Rec.at = A /\ Rec.cat = A /\ Rec.atrow = A /\ Rec.iter = A
                     /\ Rec.rows = Rows(A) /\ Rec.cols = Cols(A)
                     \* thr: <<row, column (0: only the row is accessed), did throw>>, positions from 0
                     /\ \A i \in 1..Len(Rec.thr) : LET t == Rec.thr[i] IN
                          t[3] = (IF t[1] >= Rows(A) \/ t[2] > Cols(A) THEN 1 ELSE 0)
    [] o = "print" -> Rec.s = "{_" \o Lines(A, Rec.sp, Rec.w, 1) \o "}" \o (IF Rec.br THEN "_" ELSE "") /\ Rec.prec
Sees == {"eq", "sym", "show", "print"}
Op == \/ Rec.op \in Changes /\ Change(Rec.op)
      \/ Rec.op \in Ops /\ Rec.res = Value(Rec.op) /\ Keep
      \/ Rec.op \in Sees /\ See(Rec.op) /\ Keep
TraceNext == Step /\ IF Rec.op = "reset" THEN Reset ELSE Op /\ Rec.m = reg'
=============================================================================
