----------------------------- MODULE FopsTrace -----------------------------
(* Executions recorded from the library, checked against Fops.              *)
EXTENDS Fops, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : FopsInit(i)
Judge ==
  /\ Done
  /\ IF Agrees(Trace[sid].obs) THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, nodes, input, out, results>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
