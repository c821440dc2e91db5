----------------------------- MODULE ColorTrace -----------------------------
(* Executions recorded from the library, checked against Color.              *)
EXTENDS Color, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : ColorInit(i)
Judge ==
  /\ Done
  /\ IF Agrees(Trace[sid].obs) THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, cap, text, bufs, results, res>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
