----------------------------- MODULE QuoteTrace -----------------------------
(* Executions recorded from the library, checked against Quote.  What Join   *)
(* and Quote returned is read by the shell of the specification.             *)
EXTENDS Quote, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceScen(i) == Trace[i].sc
TraceText(i) ==
  IF Trace[i].sc.op \in {"join", "files", "quote", "nv"} /\ "text" \in DOMAIN Trace[i].obs THEN Trace[i].obs.text
  ELSE Trace[i].sc.text
TraceInit == \E i \in 1..Len(Trace) : QuoteInit(i)
Judge ==
  /\ Done
  /\ IF Agrees(Trace[sid].obs) THEN PrintT(<<"ACCEPT", sid>>)
     ELSE PrintT(<<"REJECT", sid, ToJson(Outcome)>>)
  /\ pc' = "judged" /\ UNCHANGED <<sid, sc, pos, word, words, special>>
TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
