--------------------------- MODULE ConnectionsMC ---------------------------
EXTENDS Connections, TLC, Json, SequencesExt
CONSTANTS Emit
Lowest(r) == \A s \in Regs : s < r => reg[s] # "free"
MCNext ==
  \/ \E c \in Connectables, k \in Conns, r \in Regs : Lowest(r) /\ Register(c, k, r)
  \/ \E k, l \in Conns : CopyConn(k, l)
  \/ \E k \in Conns : DisconnectConn(k) \/ DisconnectId(k)
  \/ \E c \in Connectables : ClearAll(c) \/ DestroyConnectable(c) \/ CreateConnectable(c)
  \/ \E k \in Conns, u \in Uniqs : ConstructUnique(k, u) \/ AssignUnique(k, u) \/ Release(u, k)
  \/ \E u \in Uniqs : ConstructUniqueDefault(u) \/ DisconnectUnique(u) \/ DestroyUnique(u)
  \/ \E u, v \in Uniqs : MoveConstruct(u, v) \/ MoveAssign(u, v)
MCSpec == Init /\ [][MCNext]_vars
View == state
Cn(r) == IF Tracked THEN (r > 0 /\ reg'[r] = "on") ELSE r > 0
EmitEdge == Emit =>
  PrintT(ToJson(<<"E", ToString(state), <<obs'.op, obs'.a * 100 + obs'.b>>,
     <<obs'.calls,
       [k \in Conns |-> <<conn'[k], Cn(conn'[k])>>],
       [u \in Uniqs |-> <<uniq'[u], Cn(uniq'[u])>>],
       SetToSortSeq({ r \in Regs : reg'[r] = "on" }, LAMBDA a, b : a < b)>>,
     ToString(<<reg', home', up', conn', uniq'>>)>>))
=============================================================================
