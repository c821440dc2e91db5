----------------------------- MODULE CompTrace -----------------------------
(* Executions recorded from the library, checked against Comp. *)
EXTENDS Comp, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : CompInit(i)
Judge ==
  /\ Done
  /\ IF Agrees(Trace[sid].obs) THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, cmd, inh, toks, offer>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
