---------------------------- MODULE ScopeGuards ----------------------------
(***************************************************************************)
(* Scope guards (property C07).  A program opens scopes, creates and       *)
(* unsets guards in them, leaves them normally or by throwing exceptions   *)
(* that are caught some scopes further out.  Guard functions are programs  *)
(* again: they can open scopes with guards (also while an exception        *)
(* unwinds the scope of the guard) and throw.                              *)
(*                                                                         *)
(* stack of frames [t, g, how, n]:                                         *)
(*  t = "s"  a scope with guards g (kinds: "all", "succ", "exc", "off").   *)
(*           how = "body" while it executes, "normal" or "exc" while its   *)
(*           guards run; n: scopes the exception still has to leave        *)
(*  t = "f"  a guard function executing, of the last guard of the frame    *)
(*           below                                                         *)
(*  t = "h"  a guard function executing, of a guard that isn't bound to a  *)
(*           scope of the program (held by a pointer) and was destroyed    *)
(* held: such guards <<k, u, old>>: created while u scopes were being left   *)
(*  by exceptions; old: one of these exceptions was caught since           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFrames, MaxGuards, MaxHeld, Kinds
VARIABLES stack, held, obs
state == <<stack, held>>
vars == <<stack, held, obs>>

Scope == [t |-> "s", g |-> <<>>, how |-> "body", n |-> 0]
Fn == [t |-> "f", g |-> <<>>, how |-> "body", n |-> 0]
Nothing == [op |-> "init", arg |-> 0, run |-> <<0, 0>>, depth |-> 0]
HeldFn == [t |-> "h", g |-> <<>>, how |-> "body", n |-> 0]
Init == stack = <<>> /\ held = <<>> /\ obs = Nothing

Depth == Len(stack)
Top == stack[Depth]
Front(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(st, f) == Append(Front(st), f)

\* does a guard of kind k promise to run when its scope is left this way?
Runs(k, how) == \/ k = "all"
                \/ k = "succ" /\ how = "normal"
                \/ k = "exc" /\ how = "exc"

\* continues with leaving scopes until the program is in control again
RECURSIVE Advance(_)
Advance(st) ==
  IF st = <<>> THEN st ELSE
  LET d == Len(st)  top == st[d] IN
  IF top.how = "body" THEN st
  ELSE IF top.t = "h" THEN Front(st)
  ELSE IF top.t = "f"
  THEN \* the guard function is done (an exception never leaves it)
       LET below == st[d - 1] IN
       Advance(Append(SubSeq(st, 1, d - 2), [below EXCEPT !.g = Front(below.g)]))
  ELSE IF top.g # <<>>
  THEN IF Runs(top.g[Len(top.g)], top.how)
       THEN Append(st, Fn)
       ELSE Advance(SetTop(st, [top EXCEPT !.g = Front(top.g)]))
  ELSE IF top.how = "exc" /\ top.n > 1
  THEN LET below == st[d - 1] IN
       Advance(Append(SubSeq(st, 1, d - 2), [below EXCEPT !.how = "exc", !.n = top.n - 1]))
  ELSE Front(st)

\* the guard whose function begins to execute, as <<frame, position>>
Executing(st) == IF st # <<>> /\ st[Len(st)].t = "f" /\ st[Len(st)].how = "body"
                 THEN <<Len(st) - 1, Len(st[Len(st) - 1].g)>>
                 ELSE IF st # <<>> /\ st[Len(st)].t = "h" THEN <<Len(st), 9>> ELSE <<0, 0>>
Started(st) == LET d == Len(st) IN
  IF d <= Depth /\ Executing(st) = Executing(SubSeq(stack, 1, d)) THEN <<0, 0>> ELSE Executing(st)

See(op, arg, run) == obs' = [op |-> op, arg |-> arg, run |-> run, depth |-> Len(stack')]

\* the scopes above the innermost executing guard function
RECURSIVE Scopes(_)
Scopes(st) == IF st = <<>> \/ st[Len(st)].t \in {"f", "h"} THEN 0 ELSE 1 + Scopes(Front(st))
InFn == \E i \in DOMAIN stack : stack[i].t \in {"f", "h"}

\* scopes being left by exceptions (their guards run)
Unwinding(st) == Cardinality({i \in DOMAIN st : st[i].t = "s" /\ st[i].how = "exc"})
Aged == held' = [i \in DOMAIN held |-> <<held[i][1], held[i][2], held[i][3] \/ Unwinding(stack') < held[i][2]>>]

Open == /\ Depth < MaxFrames
        /\ stack' = Append(stack, Scope) /\ Aged /\ See("open", 0, <<0, 0>>)
Guard(k) == /\ Depth > 0 /\ Top.t = "s" /\ Len(Top.g) < MaxGuards
            /\ stack' = SetTop(stack, [Top EXCEPT !.g = Append(@, k)])
            /\ Aged /\ See("guard-" \o k, 0, <<0, 0>>)
Unset(i) == /\ Depth > 0 /\ Top.t = "s" /\ i \in DOMAIN Top.g /\ Top.g[i] # "off"
            /\ stack' = SetTop(stack, [Top EXCEPT !.g[i] = "off"])
            /\ Aged /\ See("unset", i, <<0, 0>>)
Leave == /\ Depth > 0
         /\ stack' = Advance(SetTop(stack, [Top EXCEPT !.how = "normal"]))
         /\ Aged /\ See("leave", 0, Started(stack'))
\* leaves n scopes; inside of a guard function it may leave the function
Throw(n) ==
  /\ Depth > 0 /\ n \in 1..(Scopes(stack) + (IF InFn THEN 1 ELSE 0))
  /\ stack' = Advance(SetTop(stack, [Top EXCEPT !.how = "exc", !.n = n]))
  /\ Aged /\ See("throw", n, Started(stack'))

\* a guard that isn't bound to a scope of the program; its own scope is its life
Hold(k) == /\ Len(held) < MaxHeld
           /\ held' = Append(held, <<k, Unwinding(stack), FALSE>>)
           /\ UNCHANGED stack /\ See("hold-" \o k, 0, <<0, 0>>)
UnsetHeld == /\ held # <<>> /\ held[1][1] # "off"
             /\ held' = [held EXCEPT ![1][1] = "off"] /\ UNCHANGED stack /\ See("unhold", 0, <<0, 0>>)
\* (the exceptions it was created under and those it is destroyed under aren't told apart)
How(h) == IF ~h[3] /\ Unwinding(stack) > h[2] THEN "exc" ELSE "normal"
Drop == /\ held # <<>> /\ Depth < MaxFrames + 2
        /\ ~held[1][3] \/ Unwinding(stack) = 0
        /\ stack' = IF Runs(held[1][1], How(held[1])) THEN Append(stack, HeldFn) ELSE stack
        /\ held' = Tail(held)
        /\ See("drop", 0, IF stack' = stack THEN <<0, 0>> ELSE <<Len(stack'), 9>>)

Next == Open \/ Leave \/ (\E k \in Kinds : Guard(k)) \/ (\E i \in 1..MaxGuards : Unset(i))
        \/ (\E n \in 1..(MaxFrames + 1) : Throw(n))
        \/ (\E k \in Kinds : Hold(k)) \/ UnsetHeld \/ Drop
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == \A i \in DOMAIN stack :
  /\ stack[i].t = "f" => i > 1 /\ stack[i - 1].t = "s" /\ stack[i - 1].how # "body"
  /\ stack[i].t = "s" /\ stack[i].how # "body" => i < Depth /\ stack[i + 1].t = "f"
\* a guard function only executes as promised
Promise == \A i \in DOMAIN stack : stack[i].t = "f" =>
  LET s == stack[i - 1] k == s.g[Len(s.g)] IN
  k # "off" /\ (k = "succ" => s.how = "normal") /\ (k = "exc" => s.how = "exc")
\* also of guards that aren't bound to a scope
HeldPromise == [][ (obs'.op = "drop" /\ stack' # stack) =>
  LET h == held[1] IN h[1] # "off" /\ (h[1] = "succ" => h[3] \/ Unwinding(stack) <= h[2]) /\ (h[1] = "exc" => Unwinding(stack) > h[2]) ]_vars
\* guards leave their scope in reverse order, never skipping one that has to run
Reverse == [][ \A i \in DOMAIN stack \intersect DOMAIN stack' :
  (stack[i].t = "s" /\ stack'[i].t = "s" /\ stack[i].how # "body") =>
     /\ Len(stack'[i].g) <= Len(stack[i].g)
     /\ \A j \in (Len(stack'[i].g) + 1)..(Len(stack[i].g) - 1) : ~Runs(stack[i].g[j], stack[i].how) ]_vars
View == state
EmitEdge == PrintT(ToJson(<<"E", ToString(state), <<obs'.op, obs'.arg>>, <<obs'.run[1], obs'.run[2], obs'.depth>>, ToString(state')>>))
=============================================================================
