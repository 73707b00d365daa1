------------------------------ MODULE BytesMC ------------------------------
(* What is written is what is read, in the same order.                      *)
EXTENDS Bytes, FiniteSets, TLC
CONSTANTS N, Values, MaxObj
VARIABLES written, got, start
mcvars == <<mem, w, r, dyn, written, got, start>>
Objs == UNION { [1..n -> Values] : n \in 0..MaxObj }
MCInit == Init([i \in 1..(N + 2) |-> 0]) /\ written = <<>> /\ got = <<>> /\ start = 0
MCNext ==
  \/ \E b, e \in 1..(N + 1) : w.e = 0 /\ written = <<>> /\ NewWrite(b, e) /\ start' = b /\ UNCHANGED <<written, got>>
  \/ \E o \in Objs : w.e # 0 /\ r.e = 0 /\ \E ok \in BOOLEAN : Write(o, ok) /\ written' = (IF ok THEN written \o o ELSE written) /\ UNCHANGED <<got, start>>
  \/ \E o \in Objs : Len(dyn) + Len(o) <= N /\ w.e = 0 /\ r.e = 0 /\ DynWrite(o) /\ written' = written \o o /\ UNCHANGED <<got, start>>
  \/ r.e = 0 /\ written # <<>> /\ (IF w.e = 0 THEN NewRead("dyn", 0, Len(dyn)) ELSE NewRead("mem", start, w.b)) /\ UNCHANGED <<written, got, start>>
  \/ \E n \in 0..MaxObj, ok \in BOOLEAN : r.e # 0 /\
        LET new == IF n <= Left(r) THEN Front(n) ELSE [i \in 1..n |-> 0] IN
        Read(n, [i \in 1..n |-> 0], new, ok) /\ got' = (IF ok THEN got \o new ELSE got) /\ UNCHANGED <<written, start>>
MCSpec == MCInit /\ [][MCNext]_mcvars
RoundTrip == /\ Len(got) <= Len(written) /\ got = SubSeq(written, 1, Len(got))
             /\ (r.e # 0 /\ Left(r) = 0) => got = written
Guards == mem[1] = 0 /\ mem[N + 2] = 0 \* no byte outside of the buffer
=============================================================================
