---------------------------- MODULE LinearTrace ----------------------------
(* Validates results of nytl/matOps.hpp.                                    *)
EXTENDS Linear, TraceBase
A == Rec.a
D == Rows(A)
TraceInit == l = 1
Op(o) ==
  CASE o = "lu" -> IsLU(A, Rec, Rec.unit)
    \* integers: exact
    [] o = "det" -> IF Rec.exact THEN Rec.x = Det(A) ELSE Near(Rec.x, Rec.k * Det(A), 1)
    [] o = "invertible" -> /\ (Det(A) # 0 => Rec.x)
                           /\ (Det(A) = 0 /\ (Rec.exact \/ \E i \in 1..D : (\A j \in 1..D : A[i][j] = 0) \/ (\A j \in 1..D : A[j][i] = 0)) => ~Rec.x)
    [] o = "inverse" -> LET d == Det(A) adj == Adj(A) IN \A i, j \in 1..D : Quotient(Rec.x[i][j], adj[i][j], d, Rec.k)
    [] o = "solve" -> LET d == Det(A) n == Apply(Adj(A), Rec.b) IN \A i \in 1..D : Quotient(Rec.x[i], n[i], d, Rec.k)
    \* A and B triangular, A B x = b
    [] o = "evaluate" -> LET p == Times(A, Rec.bm) d == Det(p) n == Apply(Adj(p), Rec.b) IN \A i \in 1..D : Quotient(Rec.x[i], n[i], d, Rec.k)
    [] o \in {"ref", "rref"} ->
         LET x == Echelon(A) m == IF Rows(A) < Cols(A) THEN Rows(A) ELSE Cols(A) IN
         \* where the arithmetic is exact or the rank can't be misjudged because of rounding
         (Rec.ex \/ (Len(x.pv) = m /\ x.pv[m] = m)) => IF o = "ref" THEN IsREF(Rec.x, A, Rec.k) ELSE IsRREF(Rec.x, A, Rec.k)
    [] o = "pivot" -> IsPivot(Rec.x, Rec.ret, A, Rec.row, Rec.col, Rec.after)
TraceNext == Step /\ Op(Rec.op)
=============================================================================
