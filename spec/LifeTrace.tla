----------------------------- MODULE LifeTrace -----------------------------
(* Executions recorded from the library, checked against Life. *)
EXTENDS Life, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : LifeInit(i)
Judge ==
  /\ MarkDone
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
