------------------------------- MODULE Approx -------------------------------
(* Approximate comparison (property C20).  Components are integers (units of *)
(* 1/U) or "nan", "inf", "-inf"; tolerances are in units of 1/T.             *)
EXTENDS Integers, Sequences
CONSTANTS U, T
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
\* |v - w| < e (1 + max(|v|, |w|)); v and w are sequences <<kind, number>>, kind 0: number, 1: infinite, 2: not a number
Equal(v, w, e) ==
  IF v[1] # 0 \/ w[1] # 0 THEN FALSE
  ELSE Abs(v[2] - w[2]) * T < e * (U + Max2(Abs(v[2]), Abs(w[2])))
\* composite values: sequences of components
EqualAll(v, w, e) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Equal(v[i], w[i], e)
\* Numbers that are huge (s = 1, the tolerance is relative) or, with their tolerance, tiny (s = -1, it is
\* absolute): the other summand matters at the very limit only.  The set of possible results.
EqualScaled(v, w, e, s) ==
  IF v[1] # 0 \/ w[1] # 0 THEN {FALSE}
  ELSE LET d == Abs(v[2] - w[2]) * T m == e * (IF s = 1 THEN Max2(Abs(v[2]), Abs(w[2])) ELSE U) IN
       IF d = 0 THEN {e > 0} ELSE IF d = m THEN BOOLEAN ELSE {d < m}
EqualAllScaled(v, w, e, s) ==
  IF Len(v) # Len(w) THEN {FALSE}
  ELSE LET r == [i \in DOMAIN v |-> EqualScaled(v[i], w[i], e, s)] IN
       (IF \A i \in DOMAIN v : TRUE \in r[i] THEN {TRUE} ELSE {}) \union (IF \E i \in DOMAIN v : FALSE \in r[i] THEN {FALSE} ELSE {})
\* v = b + d n with a tolerance of e/64 n, n being tiny and the limit not hit exactly
EqualFine(b, d, e) == Abs(d) * 64 < e * (1 + Abs(b))
\* near to the small integer b: v = b + d n, e = c n where n is a tiny unit
EqualTiny(b, d, c) == Abs(d) < c * (1 + Abs(b))
=============================================================================
