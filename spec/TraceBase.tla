----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: the recorded trace (one record  *)
(* per line), the position in it and its acceptance.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rec == Trace[l]
Step == l <= Len(Trace) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE
  ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=============================================================================
