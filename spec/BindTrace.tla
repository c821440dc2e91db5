----------------------------- MODULE BindTrace -----------------------------
(* Executions recorded from the library, checked against Bind.              *)
EXTENDS Bind, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : BindInit(i)
Judge ==
  /\ Done
  /\ IF Agrees(Trace[sid].obs) THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, val, boxed, calls, res>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
