----------------------------- MODULE ValsTrace -----------------------------
(* Executions recorded from the library, checked against Vals. *)
EXTENDS Vals, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : ValsInit(i)
Judge ==
  /\ pc = "end" /\ pc' = "judged"
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ UNCHANGED <<sid, k, val, cnt, impl, cur, acts, err>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
