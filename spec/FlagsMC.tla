------------------------------ MODULE FlagsMC ------------------------------
EXTENDS Flags
CONSTANT W
Ops == {"or", "and", "xor"}
MCInit == Init(0..(W - 1))
MCNext == \E r, s \in Regs, v \in SUBSET bits :
  Default(r) \/ Set(r, v) \/ SetInverted(r, v) \/ Copy(r, s) \/ (\E op \in Ops : InPlace(op, r, v) \/ InPlace(op, r, reg[s]))
MCSpec == MCInit /\ [][MCNext]_vars
Algebra == \A r, s \in Regs : LET a == reg[r] b == reg[s] IN
   /\ Not(Not(a)) = a /\ Not(Apply("or", a, b)) = Apply("and", Not(a), Not(b))
   /\ Apply("xor", a, b) = Apply("and", Apply("or", a, b), Not(Apply("and", a, b)))
   /\ (Apply("xor", a, b) = {}) = (a = b)
=============================================================================
