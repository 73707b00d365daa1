------------------------------- MODULE SpanMC -------------------------------
(* The specification of spans on its own, for a short sequence.             *)
EXTENDS Span, TLC
CONSTANTS N, Values
Idx == 0..N
Exts == Idx \union {Dyn}
MCInit == \E m \in [1..N -> Values] : Init(m)
\* a span derived from another one is a part of it
Part(r, s) == Assert(reg'[r].off >= reg[s].off /\ reg'[r].off + reg'[r].len <= reg[s].off + reg[s].len, "no part")
MCNext ==
   \/ \E r \in Regs, o, n \in Idx, e \in Exts : Make(r, o, n, e)
   \/ \E r \in Regs : MakeNull(r)
   \/ \E r, s \in Regs, n \in Idx, e \in Exts : (First(r, s, n, e) \/ Last(r, s, n, e) \/ Rest(r, s, n, e)) /\ Part(r, s)
   \/ \E r, s \in Regs, o, n \in Idx, e \in Exts : Sub(r, s, o, n, e) /\ Part(r, s)
   \/ \E r, s \in Regs, e \in Exts : Convert(r, s, e) /\ Part(r, s)
   \/ \E s \in Regs, i \in Idx, v \in Values : Write(s, i, v)
MCSpec == MCInit /\ [][MCNext]_vars
\* total order of contents
Order == \A r, s \in Regs : Valid(r) /\ Valid(s) =>
   /\ Cardinality({x \in {1, 2, 3} : (x = 1 /\ Smaller(r, s)) \/ (x = 2 /\ Equal(r, s)) \/ (x = 3 /\ Smaller(s, r))}) = 1
\* writing changes exactly one element
OneWrite == [][ mem' # mem => Cardinality({i \in 1..N : mem'[i] # mem[i]}) = 1 /\ reg' = reg ]_vars
=============================================================================
