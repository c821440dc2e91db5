----------------------------- MODULE WrapTrace -----------------------------
(* Executions recorded from the library, checked against Wrap.              *)
EXTENDS Wrap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceWritten(i) == Trace[i].obs.out
TraceInit == \E i \in 1..Len(Trace) : WrapInit(i)
Judge ==
  /\ Done
  /\ IF pc = "good" THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(<<row, line>>)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, li, wi, row, line, used>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
