---------------------------- MODULE Connections ----------------------------
(***************************************************************************)
(* Connections and unique connections to connectable objects (properties   *)
(* C04 and C05).                                                           *)
(*                                                                         *)
(* reg[r]   a registration: "free" (not existing), "on" (registered) or    *)
(*          "off" (removed but still referenced by some connection object) *)
(* home[r]  the connectable of a registration                              *)
(* up[c]    the connectable exists                                         *)
(* conn[k]  registration a ConnectionT object refers to, 0: empty          *)
(* uniq[u]  registration a UniqueConnectionT object owns, 0: empty,        *)
(*          -1: the object does not exist                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Regs, Connectables, Conns, Uniqs,
          Tracked   \* ids share their value with the connectable

VARIABLES reg, home, up, conn, uniq, obs
state == <<reg, home, up, conn, uniq>>
vars == <<reg, home, up, conn, uniq, obs>>

Init == /\ reg = [r \in Regs |-> "free"]
        /\ home = [r \in Regs |-> 0]
        /\ up = [c \in Connectables |-> TRUE]
        /\ conn = [k \in Conns |-> 0]
        /\ uniq = [u \in Uniqs |-> -1]
        /\ obs = [op |-> "init", a |-> 0, b |-> 0, calls |-> <<>>]

On(r) == r > 0 /\ reg[r] = "on"
\* what connected() reports for an object that holds r
IsConnected(r) == IF Tracked THEN On(r) ELSE r > 0
\* registrations that received a disconnect when a holder of r is disconnected
Calls(r) == IF IsConnected(r) THEN <<r>> ELSE <<>>
\* a holder of r may be disconnected: a connectable that is destroyed must not
\* be accessed (the caller's duty for ids that are not tracked)
Safe(r) == IF r <= 0 THEN TRUE ELSE Tracked \/ up[home[r]]

\* the next state for new values of conn and uniq, when the registrations in S
\* are removed: unreferenced registrations cease to exist
Settle(c2, u2, S, regs) ==
  LET held == { c2[k] : k \in Conns } \union { u2[u] : u \in Uniqs }
      st(r) == IF r \in S /\ regs[r] = "on" THEN "off" ELSE regs[r]
  IN /\ conn' = c2
     /\ uniq' = u2
     /\ reg' = [r \in Regs |-> IF st(r) = "off" /\ r \notin held THEN "free" ELSE st(r)]
     /\ home' = [r \in Regs |-> IF reg'[r] = "free" THEN 0 ELSE home[r]]

Obs(op, a, b, calls) == obs' = [op |-> op, a |-> a, b |-> b, calls |-> calls]

\* connectable c registers something, the connection is stored in object k
Register(c, k, r) ==
  /\ up[c] /\ reg[r] = "free"
  /\ LET c2 == [conn EXCEPT ![k] = r]
         held == { c2[x] : x \in Conns } \union { uniq[x] : x \in Uniqs }
     IN /\ conn' = c2
        /\ reg' = [x \in Regs |-> IF x = r THEN "on"
                     ELSE IF reg[x] = "off" /\ x \notin held THEN "free" ELSE reg[x]]
        /\ home' = [x \in Regs |-> IF x = r THEN c ELSE IF reg'[x] = "free" THEN 0 ELSE home[x]]
  /\ UNCHANGED <<up, uniq>>
  /\ Obs("register", c, k * 10 + r, <<>>)

CopyConn(k, l) ==
  /\ k # l
  /\ Settle([conn EXCEPT ![l] = conn[k]], uniq, {}, reg)
  /\ UNCHANGED up /\ Obs("copy", k, l, <<>>)

DisconnectConn(k) ==
  /\ Safe(conn[k])
  /\ Settle([conn EXCEPT ![k] = 0], uniq, {conn[k]}, reg)
  /\ UNCHANGED up /\ Obs("cdis", k, 0, Calls(conn[k]))

\* the connectable is told directly
DisconnectId(k) ==
  /\ conn[k] > 0 /\ up[home[conn[k]]]
  /\ Settle(conn, uniq, {conn[k]}, reg)
  /\ UNCHANGED up /\ Obs("iddis", k, 0, <<>>)

ClearAll(c) ==
  /\ up[c]
  /\ Settle(conn, uniq, { r \in Regs : home[r] = c }, reg)
  /\ UNCHANGED up /\ Obs("clear", c, 0, <<>>)

DestroyConnectable(c) ==
  /\ up[c]
  /\ Tracked \/ \A u \in Uniqs : uniq[u] > 0 => home[uniq[u]] # c
  /\ Settle(conn, uniq, { r \in Regs : home[r] = c }, reg)
  /\ up' = [up EXCEPT ![c] = FALSE]
  /\ Obs("cbdestroy", c, 0, <<>>)

\* a new connectable, not at the place of the old one
CreateConnectable(c) ==
  /\ ~up[c]
  /\ Tracked \/ \A r \in Regs : home[r] # c
  /\ up' = [up EXCEPT ![c] = TRUE]
  /\ UNCHANGED <<reg, home, conn, uniq>>
  /\ Obs("cbcreate", c, 0, <<>>)

(* unique connections; a connection must not be owned twice *)
Owned(r) == \E u \in Uniqs : uniq[u] = r

\* a unique connection is constructed, from an empty connection or an unowned one
ConstructUnique(k, u) ==
  /\ uniq[u] = -1 /\ (conn[k] > 0 => ~Owned(conn[k]) /\ Safe(conn[k]) /\ up[home[conn[k]]])
  /\ Settle(conn, [uniq EXCEPT ![u] = conn[k]], {}, reg)
  /\ UNCHANGED up /\ Obs("uctor", k, u, <<>>)

ConstructUniqueDefault(u) ==
  /\ uniq[u] = -1
  /\ Settle(conn, [uniq EXCEPT ![u] = 0], {}, reg)
  /\ UNCHANGED up /\ Obs("udef", u, 0, <<>>)

\* unique = UniqueConnection(connection)
AssignUnique(k, u) ==
  /\ uniq[u] >= 0 /\ Safe(uniq[u])
  /\ conn[k] > 0 => ~Owned(conn[k]) /\ Safe(conn[k]) /\ up[home[conn[k]]]
  /\ Settle(conn, [uniq EXCEPT ![u] = conn[k]], {uniq[u]}, reg)
  /\ UNCHANGED up /\ Obs("uassign", k, u, Calls(uniq[u]))

MoveConstruct(u, v) ==
  /\ u # v /\ uniq[u] >= 0 /\ uniq[v] = -1
  /\ Settle(conn, [uniq EXCEPT ![v] = uniq[u], ![u] = 0], {}, reg)
  /\ UNCHANGED up /\ Obs("umovec", u, v, <<>>)

MoveAssign(u, v) ==
  /\ u # v /\ uniq[u] >= 0 /\ uniq[v] >= 0 /\ Safe(uniq[v])
  /\ Settle(conn, [uniq EXCEPT ![v] = uniq[u], ![u] = 0], {uniq[v]}, reg)
  /\ UNCHANGED up /\ Obs("umovea", u, v, Calls(uniq[v]))

DisconnectUnique(u) ==
  /\ uniq[u] >= 0 /\ Safe(uniq[u])
  /\ Settle(conn, [uniq EXCEPT ![u] = 0], {uniq[u]}, reg)
  /\ UNCHANGED up /\ Obs("udis", u, 0, Calls(uniq[u]))

DestroyUnique(u) ==
  /\ uniq[u] >= 0 /\ Safe(uniq[u])
  /\ Settle(conn, [uniq EXCEPT ![u] = -1], {uniq[u]}, reg)
  /\ UNCHANGED up /\ Obs("udestroy", u, 0, Calls(uniq[u]))

\* the released connection is stored in object k
Release(u, k) ==
  /\ uniq[u] >= 0
  /\ Settle([conn EXCEPT ![k] = uniq[u]], [uniq EXCEPT ![u] = 0], {}, reg)
  /\ UNCHANGED up /\ Obs("release", u, k, <<>>)

Next ==
  \/ \E c \in Connectables, k \in Conns, r \in Regs : Register(c, k, r)
  \/ \E k, l \in Conns : CopyConn(k, l)
  \/ \E k \in Conns : DisconnectConn(k) \/ DisconnectId(k)
  \/ \E c \in Connectables : ClearAll(c) \/ DestroyConnectable(c) \/ CreateConnectable(c)
  \/ \E k \in Conns, u \in Uniqs : ConstructUnique(k, u) \/ AssignUnique(k, u) \/ Release(u, k)
  \/ \E u \in Uniqs : ConstructUniqueDefault(u) \/ DisconnectUnique(u) \/ DestroyUnique(u)
  \/ \E u, v \in Uniqs : MoveConstruct(u, v) \/ MoveAssign(u, v)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == /\ reg \in [Regs -> {"free", "on", "off"}]
          /\ conn \in [Conns -> Regs \union {0}]
          /\ uniq \in [Uniqs -> Regs \union {-1, 0}]
Registered == { r \in Regs : reg[r] = "on" }
\* C04: all copies agree and tell whether the function is registered
TrackedTruth == Tracked => \A k \in Conns : IsConnected(conn[k]) <=> conn[k] \in Registered
HomeAlive == \A r \in Registered : up[home[r]]
StaleIsNeutral == [][ obs'.op = "cdis" /\ Tracked /\ ~On(conn[obs'.a]) =>
                        obs'.calls = <<>> /\ { r \in Regs : reg'[r] = "on" } = Registered ]_vars
\* C05: nothing is owned twice ...
SingleOwner == \A u, v \in Uniqs : u # v /\ uniq[u] > 0 => uniq[u] # uniq[v]
\* ... ownership only ends with a disconnect or a release (or together with
\* the registration itself)
OwnershipKept == [][ \A u \in Uniqs : uniq[u] > 0 =>
    \/ \E v \in Uniqs : uniq'[v] = uniq[u]
    \/ obs'.calls = Calls(uniq[u])
    \/ obs'.op = "release" /\ obs'.a = u /\ conn'[obs'.b] = uniq[u]
         /\ reg'[uniq[u]] = reg[uniq[u]] ]_vars
\* moving or releasing never removes a registration of the moved one
ReleaseKeeps == [][ obs'.op \in {"release", "umovec"} =>
                      { r \in Regs : reg'[r] = "on" } = Registered ]_vars
AtMostOnce == Len(obs.calls) <= 1
=============================================================================
