----------------------------- MODULE PipeTrace -----------------------------
(* Executions recorded from the library, checked against Pipe. *)
EXTENDS Pipe, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : PipeInit(i)
Judge ==
  /\ Done
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ ret' = "judged" /\ UNCHANGED <<sid, st, out>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
