----------------------------- MODULE NumsTrace -----------------------------
(* Executions recorded from the library, checked against Nums.              *)
EXTENDS Nums, Json, IOUtils
VARIABLE judged

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : NumsInit(i) /\ judged = FALSE
Judge ==
  /\ Done /\ ~judged /\ judged' = TRUE
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ UNCHANGED vars
TraceNext == (Step /\ UNCHANGED judged) \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, judged>>
=============================================================================
