----------------------------- MODULE CallbackMC -----------------------------
(* Enumerates the complete labelled transition system of Callback.tla with *)
(* bounded slots and nesting and prints its transitions; the harness       *)
(* replays paths of it against the implementation.                         *)
EXTENDS Callback, TLC, Json, SequencesExt
CONSTANTS MaxDepth, Emit

\* new registrations take the lowest free slot; the nesting is bounded
Lowest(s) == \A t \in Slots : t < s => ~Free(t)
\* an assignment outside of calls frees all slots first
LowestAfter(s) == IF Busy THEN Lowest(s) /\ Free(s) ELSE s = 1
MCNext ==
  \/ \E s \in Slots : \/ Lowest(s) /\ Add(s)
                      \/ LowestAfter(s) /\ Assign(s)
                      \/ Disconnect(s) \/ DisconnectStale(s)
  \/ AddFail \/ Clear \/ Return \/ Destroy
  \/ Len(stack) < MaxDepth /\ Call
  \/ \E n \in 1..Len(stack) : Throw(n)
MCSpec == Init /\ [][MCNext]_vars

View == state
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Key(s) == ToString(s)
EmitEdge == Emit =>
  PrintT(ToJson(<<"E", Key(state), <<obs'.op, obs'.arg>>,
     <<obs'.dres, obs'.inv, obs'.end, obs'.vec, Sorted(obs'.sets), Sorted(obs'.rems), Sorted(obs'.conn)>>,
     Key(<<live', pend', used', stack', alive'>>)>>))
=============================================================================
