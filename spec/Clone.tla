------------------------------- MODULE Clone -------------------------------
(***************************************************************************)
(* Cloning objects through interfaces (property C08).                      *)
(* slot[s] holds no object (type "") or an object of a dynamic type with a *)
(* value; value 0 is the one of a moved-from object.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Slots, Values, UseTypes
VARIABLES slot, obs
vars == <<slot, obs>>

(* the class hierarchies: the interfaces of every class (including itself) *)
Bases == [
  T1 |-> {"T1"},                      \* Cloneable<T1>
  T2 |-> {"T1", "T2"},                \* DeriveCloneable<T2, T1>
  T3 |-> {"T1", "T2", "T3"},          \* DeriveCloneable<T3, T2>
  M  |-> {"A", "B", "M"},             \* DeriveCloneable<M, A, B>, A and B abstract
  M2 |-> {"A", "B", "M", "M2"},       \* DeriveCloneable<M2, M>
  M3 |-> {"T1", "B", "M3"},           \* DeriveCloneable<M3, T1, B>
  M4 |-> {"B", "K", "T2", "T1", "M4"},\* DeriveCloneable<M4, B, K, T2>
  D  |-> {"V", "L", "R", "D"},        \* DeriveCloneable<D, L, R>, L and R: virtual V
  K  |-> {"K"},                       \* CloneMovable<K>
  K2 |-> {"K", "K2"},                 \* DeriveCloneMovable<K2, K>
  N2 |-> {"N", "N2"},                 \* DeriveCloneMovable<N2, N>, N abstract
  MM |-> {"N", "K", "MM"}             \* DeriveCloneMovable<MM, N, K>
]
\* interfaces that only support moving
MoveOnly == {"K", "K2", "N", "N2", "MM"}
\* the parts an object of the class consists of (its bases' and its own): they live as long as the object
Parts == [T1 |-> 1, T2 |-> 2, T3 |-> 3, M |-> 3, M2 |-> 4, M3 |-> 3, M4 |-> 5, D |-> 4, K |-> 1, K2 |-> 2, N2 |-> 2, MM |-> 3]
Types == DOMAIN Bases \intersect UseTypes
Ifaces == UNION { Bases[t] : t \in Types }

Empty == [t |-> "", v |-> 0]
Init == slot = [s \in Slots |-> Empty] /\ obs = [op |-> "init", arg |-> 0, copied |-> FALSE]
See(op, arg, copied) == obs' = [op |-> op, arg |-> arg, copied |-> copied]

New(s, t, v) == /\ slot[s].t = "" /\ slot' = [slot EXCEPT ![s] = [t |-> t, v |-> v]]
                /\ See("new-" \o t, s * 10 + v, FALSE)
Destroy(s) == /\ slot[s].t # "" /\ slot' = [slot EXCEPT ![s] = Empty]
              /\ See("destroy", s, FALSE)
Modify(s, v) == /\ slot[s].t # "" /\ slot[s].v # v /\ slot' = [slot EXCEPT ![s].v = v]
                /\ See("modify", s * 10 + v, FALSE)
\* the object in slot s is cloned through its interface b
Clone(s, b, d) ==
  /\ slot[s].t # "" /\ s # d
  /\ b \in Bases[slot[s].t] /\ b \notin MoveOnly
  /\ slot' = [slot EXCEPT ![d] = slot[s]]
  /\ See("clone-" \o b, s * 10 + d, TRUE)
CloneMove(s, b, d) ==
  /\ slot[s].t # "" /\ s # d
  /\ b \in Bases[slot[s].t]
  /\ slot' = [slot EXCEPT ![d] = slot[s], ![s].v = 0]
  /\ See("move-" \o b, s * 10 + d, FALSE)

Next == \/ \E s \in Slots, t \in Types, v \in Values : New(s, t, v)
        \/ \E s \in Slots : Destroy(s)
        \/ \E s \in Slots, v \in Values : Modify(s, v)
        \/ \E s, d \in Slots, b \in Ifaces : Clone(s, b, d) \/ CloneMove(s, b, d)
Spec == Init /\ [][Next]_vars

TypeOK == \A s \in Slots : slot[s].t \in Types \union {""} /\ slot[s].v \in Values \union {0}
\* a clone never changes other objects, has the same type and value
IsClone == [][ \A s, d \in Slots : obs'.copied /\ s # d /\ slot'[d] # slot[d] =>
                 slot'[s] = slot[s] ]_vars
RECURSIVE AliveIn(_, _)
AliveIn(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN (IF f[s].t = "" THEN 0 ELSE Parts[f[s].t]) + AliveIn(f, S \ {s})
Alive(f) == AliveIn(f, Slots)
View == slot
EmitEdge == PrintT(ToJson(<<"E", ToString(slot), <<obs'.op, obs'.arg>>,
   <<obs'.copied, [s \in Slots |-> slot'[s].t], [s \in Slots |-> slot'[s].v], Alive(slot')>>, ToString(slot')>>))
=============================================================================
