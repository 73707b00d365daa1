------------------------------ MODULE CallArgs ------------------------------
(***************************************************************************)
(* Arguments of callback calls (property C06).  A call has one argument of *)
(* every kind: by value, lvalue reference, const reference and rvalue      *)
(* reference.  Every function may modify what it received.                 *)
(*                                                                         *)
(* n     number of registered functions;  i  functions executed so far     *)
(* obj   the caller's objects, of the arguments v, l, c and r              *)
(* phase idle, or the call is executing                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxFuncs, Values
VARIABLES n, i, obj, phase, obs
state == <<n, i, obj, phase>>
vars == <<n, i, obj, phase, obs>>

Kinds == {"v", "l", "c", "r"}
Start == [k \in Kinds |-> 0]
Nothing == [op |-> "init", arg |-> 0, seen |-> Start, ended |-> FALSE]
Init == n = 0 /\ i = 0 /\ obj = Start /\ phase = "idle" /\ obs = Nothing

Register == /\ phase = "idle" /\ n < MaxFuncs
            /\ n' = n + 1 /\ UNCHANGED <<i, obj, phase>>
            /\ obs' = [Nothing EXCEPT !.op = "register"]
\* the caller changes its objects
Assign(k, x) == /\ phase = "idle" /\ obj[k] # x
                /\ obj' = [obj EXCEPT ![k] = x] /\ UNCHANGED <<n, i, phase>>
                /\ obs' = [Nothing EXCEPT !.op = "set" \o k, !.arg = x]
\* what a function sees are the caller's objects in their current state; an
\* argument passed by value is a copy of the object at the time of the call
Begin == /\ phase = "idle" /\ n > 0
         /\ phase' = "calling" /\ i' = 1 /\ UNCHANGED <<n, obj>>
         /\ obs' = [Nothing EXCEPT !.op = "call", !.seen = obj]
\* function i modifies its parameters and returns: visible for others if and
\* only if it was passed by (non-const) reference
Next(v) == (v + 1) % Values
\* bit 0: modify v, bit 1: modify l, bit 2: modify r
Do(m) ==
  /\ phase = "calling"
  /\ LET o2 == [obj EXCEPT !["l"] = IF (m \div 2) % 2 = 1 THEN Next(@) ELSE @,
                           !["r"] = IF m \div 4 = 1 THEN Next(@) ELSE @]
     IN /\ obj' = o2
        /\ IF i = n THEN phase' = "idle" /\ i' = 0 ELSE phase' = phase /\ i' = i + 1
        /\ obs' = [Nothing EXCEPT !.op = "do", !.arg = m, !.seen = o2, !.ended = (i = n)]
  /\ UNCHANGED n
Step == Register \/ Begin \/ (\E k \in Kinds, x \in 0..(Values - 1) : Assign(k, x))
        \/ (\E m \in 0..7 : Do(m))
Spec == Init /\ [][Step]_vars

TypeOK == /\ n \in 0..MaxFuncs /\ i \in 0..n /\ obj \in [Kinds -> 0..(Values - 1)]
          /\ (phase = "calling") = (i > 0)
\* arguments passed by value or const reference never change during a call
ValueIntact == [][ obs'.op = "do" => obj'["v"] = obj["v"] /\ obj'["c"] = obj["c"] ]_vars
View == state
EmitEdge == PrintT(ToJson(<<"E", ToString(state), <<obs'.op, obs'.arg>>,
    <<obs'.seen["v"], obs'.seen["l"], obs'.seen["c"], obs'.seen["r"], obs'.ended>>,
    ToString(<<n', i', obj', phase'>>)>>))
=============================================================================
