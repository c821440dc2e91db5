----------------------------- MODULE ExitTrace -----------------------------
(* Processes observed from outside, checked against Exit. *)
EXTENDS Exit, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : ExitInit(i)
Judge ==
  /\ Done
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ k' = k + 1 /\ UNCHANGED <<sid, pan, out, end>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
