------------------------------- MODULE Flags -------------------------------
(* Flags values are sets of bits (property C12): reg[r] are flags objects.  *)
EXTENDS Integers, FiniteSets
CONSTANT Regs
VARIABLES bits, reg        \* bits: all bits of the underlying type
vars == <<bits, reg>>
Xor(a, b) == (a \ b) \union (b \ a)
Apply(op, a, b) == CASE op = "or" -> a \union b [] op = "and" -> a \intersect b [] op = "xor" -> Xor(a, b)
Not(a) == bits \ a

Init(bs) == bits = bs /\ reg = [r \in Regs |-> {}]
Default(r) == reg' = [reg EXCEPT ![r] = {}] /\ UNCHANGED bits
Set(r, v) == reg' = [reg EXCEPT ![r] = v] /\ UNCHANGED bits      \* from a value of the enumeration
SetInverted(r, v) == reg' = [reg EXCEPT ![r] = Not(v)] /\ UNCHANGED bits
Copy(r, s) == reg' = [reg EXCEPT ![r] = reg[s]] /\ UNCHANGED bits
InPlace(op, r, v) == reg' = [reg EXCEPT ![r] = Apply(op, @, v)] /\ UNCHANGED bits
TypeOK == \A r \in Regs : reg[r] \subseteq bits
=============================================================================
