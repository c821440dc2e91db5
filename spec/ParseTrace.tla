----------------------------- MODULE ParseTrace -----------------------------
(* Executions recorded from the library, checked against Parse. *)
EXTENDS Parse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == \E i \in 1..Len(Trace) : InitWith(Trace[i].sc, i)

Judge ==
  /\ MarkDone
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)

TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
