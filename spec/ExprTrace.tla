----------------------------- MODULE ExprTrace -----------------------------
(* Executions recorded from the library, checked against Expr. *)
EXTENDS Expr, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceInit == \E i \in 1..Len(Trace) : ExprInit(i)
Judge ==
  /\ Done
  /\ IF Trace[sid].obs = Outcome THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, rest, uses, err, what, log, batch, item, stack, ret>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
