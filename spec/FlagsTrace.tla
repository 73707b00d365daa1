---------------------------- MODULE FlagsTrace ----------------------------
(* Validates executions of nytl/flags.hpp; values are recorded as the lists *)
(* of their bits.                                                           *)
EXTENDS Flags, TraceBase
TraceInit == l = 1 /\ Init({})
ToSet(s) == { s[i] : i \in DOMAIN s }
S(k) == IF k \in DOMAIN Rec THEN ToSet(Rec[k]) ELSE Assert(FALSE, "no value " \o k)
Reset == Rec.op = "reset" /\ bits' = 0..(Rec.width - 1) /\ reg' = [r \in Regs |-> {}]
Operand == IF "s" \in DOMAIN Rec THEN reg[Rec.s] ELSE S("v")
Modify == /\ \/ Rec.op = "default" /\ Default(Rec.r)
             \/ Rec.op = "set" /\ Set(Rec.r, S("v"))
             \/ Rec.op = "inv" /\ SetInverted(Rec.r, S("v"))
             \/ Rec.op = "copy" /\ Copy(Rec.r, Rec.s)
             \/ Rec.op = "inplace" /\ InPlace(Rec.fn, Rec.r, Operand)
\* expressions: two flags, flags and value, value and flags, two values
X == IF "rx" \in DOMAIN Rec THEN reg[Rec.rx] ELSE S("x")
Y == IF "ry" \in DOMAIN Rec THEN reg[Rec.ry] ELSE S("y")
Expr == /\ UNCHANGED vars
        /\ \/ Rec.op = "bin" /\ S("res") = Apply(Rec.fn, X, Y)
           \/ Rec.op = "cmp" /\ Rec.eq = (X = Y) /\ Rec.ne = (X # Y)
           \/ Rec.op = "not" /\ S("res") = Not(X)
           \/ Rec.op = "test" /\ Rec.res = (X # {})
\* all registers, by value(), conversion and raw member
Shows == \A i \in Regs : ToSet(Rec.regs[i]) = reg'[i] /\ ToSet(Rec.raw[i]) = reg'[i]
TraceNext == Step /\ (Reset \/ Modify \/ Expr) /\ Shows
=============================================================================
