------------------------------ MODULE Callback ------------------------------
(***************************************************************************)
(* Abstract specification of nytl::Callback and nytl::RecursiveCallback    *)
(* (properties C01, C02, C03, C04, C06).                                   *)
(*                                                                         *)
(* A registration lives in a slot.  A slot can be used again for a new     *)
(* registration after the removal of the old one was completed, so that    *)
(* finitely many slots give histories of unbounded length.                 *)
(*                                                                         *)
(* live   registered slots in registration order                           *)
(* pend   removed while calls are pending, completion not announced yet    *)
(* used   slots that hold a (live, pending or removed) registration        *)
(* stack  pending calls; a frame is the snapshot of `live` at the begin of *)
(*        the call and the position of the function being executed         *)
(* alive  the callback object was not destroyed                            *)
(* obs    what is observable of the last step                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Slots,      \* set of slots (positive naturals)
          Reentrant   \* TRUE: RecursiveCallback, FALSE: Callback

VARIABLES live, pend, used, stack, alive, obs
state == <<live, pend, used, stack, alive>>
vars == <<live, pend, used, stack, alive, obs>>

Range(f) == { f[i] : i \in DOMAIN f }
Without(s, S) == LET test(x) == x \notin S IN SelectSeq(s, test)

NoObs == [op |-> "init", arg |-> 0, dres |-> 0, inv |-> 0, end |-> "",
          vec |-> <<>>, sets |-> {}, rems |-> {}, conn |-> {}]

Init == /\ live = <<>> /\ pend = {} /\ used = {} /\ stack = <<>>
        /\ alive = TRUE /\ obs = NoObs

Busy == Len(stack) > 0
\* where operations on the callback are allowed
Can == alive /\ (Busy => Reentrant)
Top == stack[Len(stack)]

(***************************************************************************)
(* Registration and removal.                                               *)
(***************************************************************************)
Free(s) == s \notin Range(live) /\ s \notin pend

Add(s) ==
  /\ Can /\ Free(s)
  /\ live' = Append(live, s)
  /\ used' = used \union {s}
  /\ UNCHANGED <<pend, stack, alive>>
  /\ obs' = [NoObs EXCEPT !.op = "add", !.arg = s, !.conn = Range(live')]

\* a registration that fails (empty function, throwing id, no memory)
AddFail ==
  /\ Can
  /\ UNCHANGED state
  /\ obs' = [NoObs EXCEPT !.op = "addfail", !.conn = Range(live)]

\* S: the slots removed by this step.  Removal of functions is announced at
\* once unless calls are pending.
RemoveSlots(S) ==
  /\ live' = Without(live, S)
  /\ pend' = IF Busy THEN pend \union S ELSE pend
  /\ UNCHANGED <<stack, alive>>
Sets(S) == IF Busy THEN S ELSE {}
Rems(S) == IF Busy THEN {} ELSE S

Disconnect(s) ==
  /\ Can /\ s \in used
  /\ LET S == {s} \intersect Range(live) IN
     /\ RemoveSlots(S)
     /\ UNCHANGED used
     /\ obs' = [NoObs EXCEPT !.op = "dis", !.arg = s,
                  !.dres = IF S # {} THEN 1 ELSE 2,
                  !.sets = Sets(S), !.rems = Rems(S), !.conn = Range(live')]

\* disconnecting with the id of an earlier, completely removed registration
DisconnectStale(s) ==
  /\ Can /\ s \in used
  /\ UNCHANGED state
  /\ obs' = [NoObs EXCEPT !.op = "stale", !.arg = s, !.dres = 2, !.conn = Range(live)]

Clear ==
  /\ Can
  /\ LET S == Range(live) IN
     /\ RemoveSlots(S)
     /\ UNCHANGED used
     /\ obs' = [NoObs EXCEPT !.op = "clear", !.sets = Sets(S), !.rems = Rems(S)]

\* callback = function
Assign(s) ==
  /\ Can /\ s \notin pend
  /\ LET S == Range(live) IN
     /\ (Busy => s \notin S) \* the slot of a pending removal can't be used again
     /\ live' = <<s>>
     /\ used' = used \union {s}
     /\ pend' = IF Busy THEN pend \union S ELSE pend
     /\ UNCHANGED <<stack, alive>>
     /\ obs' = [NoObs EXCEPT !.op = "assign", !.arg = s,
                  !.sets = Sets(S), !.rems = Rems(S), !.conn = {s}]

(***************************************************************************)
(* Calls.  A call executes the functions of its snapshot one after another;*)
(* while a function is executing any operation may happen in it.           *)
(***************************************************************************)
Finish == \* the last pending call has ended: complete all removals
  /\ pend' = IF Len(stack') = 0 THEN {} ELSE pend
FinishRems == IF Len(stack') = 0 THEN pend ELSE {}

Call ==
  /\ Can
  /\ IF Len(live) = 0
     THEN /\ stack' = stack
          /\ obs' = [NoObs EXCEPT !.op = "call", !.end = "ret", !.conn = Range(live)]
     ELSE /\ stack' = Append(stack, [snap |-> live, pos |-> 1])
          /\ obs' = [NoObs EXCEPT !.op = "call", !.inv = live[1], !.conn = Range(live)]
  /\ UNCHANGED <<live, pend, used, alive>>

\* the executing function returns
Return ==
  /\ Busy
  /\ UNCHANGED <<live, used, alive>>
  /\ IF Top.pos < Len(Top.snap)
     THEN /\ stack' = [stack EXCEPT ![Len(stack)].pos = @ + 1]
          /\ pend' = pend
          /\ obs' = [NoObs EXCEPT !.op = "ret", !.inv = Top.snap[Top.pos + 1],
                       !.conn = Range(live)]
     ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ Finish
          /\ obs' = [NoObs EXCEPT !.op = "ret", !.end = "ret", !.vec = Top.snap,
                       !.rems = FinishRems, !.conn = Range(live)]

\* the executing function throws and the exception leaves n calls
Throw(n) ==
  /\ Busy /\ n \in 1..Len(stack)
  /\ UNCHANGED <<live, used, alive>>
  /\ stack' = SubSeq(stack, 1, Len(stack) - n)
  /\ Finish
  /\ obs' = [NoObs EXCEPT !.op = "throw", !.arg = n, !.end = "exc",
               !.rems = FinishRems, !.conn = Range(live)]

Destroy ==
  /\ alive /\ ~Busy
  /\ alive' = FALSE
  /\ live' = <<>>
  /\ UNCHANGED <<pend, used, stack>>
  /\ obs' = [NoObs EXCEPT !.op = "destroy", !.rems = Range(live)]

Next == \/ \E s \in Slots : Add(s) \/ Disconnect(s) \/ DisconnectStale(s) \/ Assign(s)
        \/ AddFail \/ Clear \/ Call \/ Return \/ Destroy
        \/ \E n \in 1..Len(stack) : Throw(n)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

TypeOK ==
  /\ Range(live) \subseteq used /\ pend \subseteq used /\ used \subseteq Slots
  /\ \A i \in DOMAIN stack : stack[i].pos \in DOMAIN stack[i].snap
  /\ alive \in BOOLEAN

\* C01: every pending call executes each registered function exactly once
CallsDistinct == NoDup(live) /\ \A i \in DOMAIN stack : NoDup(stack[i].snap)
\* C01: a call begins with exactly the registered functions, its set of
\* functions never changes and it advances one by one
SnapshotStable == [][ \A i \in DOMAIN stack \intersect DOMAIN stack' :
    /\ stack'[i].snap = stack[i].snap
    /\ stack'[i].pos \in {stack[i].pos, stack[i].pos + 1} ]_vars
SnapshotIsLive == [][ Len(stack') > Len(stack) => stack'[Len(stack')].snap = live ]_vars
\* C02: removed functions never become registered again, unless by a new add
RemovedForGood == [][ \A s \in Slots :
    (s \notin Range(live) /\ s \in Range(live')) => obs'.op \in {"add", "assign"} /\ obs'.arg = s ]_vars
OnlyTargetRemoved == [][ obs'.op = "dis" => Range(live) \ Range(live') \subseteq {obs'.arg} ]_vars
\* C03: removal is announced exactly when it is complete
AnnouncedOnce == [][ \A s \in Slots :
    s \in obs'.rems <=> \/ s \in pend /\ s \notin pend'
                        \/ s \in Range(live) /\ s \notin pend'
                           /\ (s \notin Range(live') \/ (obs'.op = "assign" /\ ~Busy)) ]_vars
PendingOnlyBusy == pend # {} => Busy
PendingIsRemoved == pend \intersect Range(live) = {}
\* a removed function that is still to be executed is not forgotten
PendingCovered == \A i \in DOMAIN stack : Range(stack[i].snap) \subseteq Range(live) \union pend
\* C04
Connected == obs.op # "init" => obs.conn = Range(live)
\* C06: a function that throws leaves nothing but the ended calls
ThrowNeutral == [][ obs'.op = "throw" => live' = live /\ used' = used ]_vars
FailNeutral == [][ obs'.op = "addfail" => UNCHANGED state ]_vars
=============================================================================
