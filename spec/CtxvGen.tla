------------------------------ MODULE CtxvGen ------------------------------
(* Every small arrangement of steps that set, replace and end contexts.     *)
EXTENDS Ctxv, Json
CONSTANT Max
VARIABLE judged

GenScen(x) == x
T(c, stage, do, k, v) == [at |-> c, stage |-> stage, do |-> do, k |-> k, v |-> v, how |-> "action"]
Run_ == {"before", "action", "after"}
Sets(cs) == {T(c, st, "set", k, v) : c \in cs, st \in {"uses"} \cup Run_, k \in {"k1", "k2"}, v \in {"1"}}
Resets(cs) == {T(c, st, "reset", "k1", "2") : c \in cs, st \in Run_}
Times(cs) == {T(c, st, "timeout", "", v) : c \in cs, st \in {"uses", "before"}, v \in {"far", "near"}}
Sigs(cs) == {T(c, st, "signal", "", "") : c \in cs, st \in {"uses", "before"}}
Ends(n) == {T(n, "action", "raise", "", "")} \cup {T(c, st, "cancel", "", "") : c \in 1..n, st \in Run_}
AnyStep(n) == Sets(1..n) \cup Resets(1..n) \cup Times(1..n) \cup Sigs(1..n) \cup Ends(n)
Fine(s) ==
  /\ \A k \in {"k1", "k2"} : /\ Cardinality(Owners(s, k)) <= 1
                             /\ \A o \in Owners(s, k) : \A i \in 1..Len(s.steps) : s.steps[i].k = k => s.steps[i].at >= o
  /\ (\E i \in 1..Len(s.steps) : s.steps[i].do = "raise") =>
        /\ \E i \in 1..Len(s.steps) : s.steps[i].do = "signal"
        /\ \A i \in 1..Len(s.steps) : s.steps[i].do # "reset"
\* the value tells which step it came from
Number(ss) == [i \in 1..Len(ss) |-> IF ss[i].do \in {"set", "reset"} THEN [ss[i] EXCEPT !.v = CASE i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] OTHER -> "4"] ELSE ss[i]]
GenInit ==
  /\ judged = FALSE
  /\ \E n \in 1..3, xf \in BOOLEAN : \E m \in 0..(IF n = 3 /\ Max > 2 THEN Max - 1 ELSE Max) : \E ss \in [1..m -> AnyStep(n)] :
       LET s == [path |-> SubSeq(<<"app", "s1", "s2">>, 1, n), xfirst |-> xf, steps |-> Number(ss)]
       IN  Fine(s) /\ (xf => m < 2) /\ CtxvInit(s)
Emit == /\ Done /\ ~judged /\ judged' = TRUE
        /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ UNCHANGED vars
GenNext == (Step /\ UNCHANGED judged) \/ Emit
GenSpec == GenInit /\ [][GenNext]_<<vars, judged>>
=============================================================================
