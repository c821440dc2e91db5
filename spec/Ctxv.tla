------------------------------- MODULE Ctxv -------------------------------
(***************************************************************************)
(* The context.Context which handlers see: values, deadlines, cancellation *)
(* and signals.  It starts as the one given to the run.  Each step of a    *)
(* handler derives a further context or replaces it, for all that comes    *)
(* later in the command and in the commands below it.                      *)
(*                                                                         *)
(* Contexts form a forest of nodes; a command has a current node.  What is *)
(* set in Uses is kept for when the command runs.  A key that is set in    *)
(* Uses of a command is only looked at, and set later, in that command and *)
(* those below it.                                                         *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)

VARIABLES sid, nodes, at, todo, log, made
vars == <<sid, nodes, at, todo, log, made>>
sc == Scen(sid)

\* nodes: parent, key, value ("" for none), deadline, err, kind
Root == 1
Base == [up |-> 0, k |-> "base", v |-> "0", dl |-> "none", err |-> "", kind |-> "cancel"]

---------------------------------------------------------------------------
(* commands are numbered along the path: 1 is the root; "x" is a sibling that is not selected *)
Cmds(s) == 1..Len(s.path)
Steps(s, c, stage) == SelectSeq(s.steps, LAMBDA t : t.at = c /\ t.stage = stage)
Owners(s, k) == {s.steps[i].at : i \in {j \in 1..Len(s.steps) : s.steps[j].stage = "uses" /\ s.steps[j].do = "set" /\ s.steps[j].k = k}}
\* the keys that are looked at in command c
Asked(s, c) == SelectSeq(<<"base", "k1", "k2", "k3">>, LAMBDA k : \A o \in Owners(s, k) : o <= c)

Timed(t) == t.do \in {"timeout", "signal"}
Late(ts) == SelectSeq(ts, Timed)
Now(ts) == SelectSeq(ts, LAMBDA t : ~Timed(t))
E(c, stage, t) == [c |-> c, stage |-> stage, t |-> t]
Look == [at |-> 0, stage |-> "", do |-> "look", k |-> "", v |-> ""]
Enter == [Look EXCEPT !.do = "enter"]
End == [Look EXCEPT !.do = "end"]
Seqn(c, stage, ts) == [i \in 1..Len(ts) |-> E(c, stage, ts[i])]

\* initialization: the actions in Uses, then the flag, then the command below
RECURSIVE Init_(_, _)
Init_(s, c) ==
  IF c > Len(s.path) THEN <<>>
  ELSE Seqn(c, "uses", Now(Steps(s, c, "uses"))) \o <<E(c, "fuses", Look)>> \o Init_(s, c + 1)
\* the run: timeouts and signals of Uses come before Before
RECURSIVE Run(_, _)
Run(s, c) ==
  IF c > Len(s.path) THEN <<>>
  ELSE <<E(c, "before", Enter)>> \o Seqn(c, "before", Late(Steps(s, c, "uses"))) \o Seqn(c, "before", Steps(s, c, "before"))
       \o <<E(c, "fbefore", Look), E(c, "faction", Look)>>
       \o (IF c < Len(s.path) THEN Run(s, c + 1) ELSE Seqn(c, "action", Steps(s, c, "action")))
       \o <<E(c, "after", End)>> \o Seqn(c, "after", Steps(s, c, "after")) \o <<E(c, "fafter", Look)>>

CtxvInit(i) ==
  /\ sid = i /\ nodes = <<Base>> /\ log = <<>> /\ made = <<>>
  /\ at = [c \in 1..3 |-> Root]
  /\ todo = Init_(Scen(i), 1) \o Run(Scen(i), 1)

---------------------------------------------------------------------------
RECURSIVE ValueAt(_, _, _)
ValueAt(ns, n, k) == IF n = 0 THEN "" ELSE IF ns[n].k = k THEN ns[n].v ELSE ValueAt(ns, ns[n].up, k)
RECURSIVE Under(_, _, _)
Under(ns, n, m) == n # 0 /\ (n = m \/ Under(ns, ns[n].up, m))
RECURSIVE Deadline(_, _)
Deadline(ns, n) == IF n = 0 THEN "none"
                   ELSE LET d == Deadline(ns, ns[n].up) IN IF "near" \in {d, ns[n].dl} THEN "near" ELSE IF "far" \in {d, ns[n].dl} THEN "far" ELSE "none"
RECURSIVE Error(_, _)
Error(ns, n) == IF n = 0 THEN "" ELSE IF ns[n].err # "" THEN ns[n].err ELSE Error(ns, ns[n].up)
\* whatever is derived from m is canceled, unless it is already
Cancel(ns, m, e) == [n \in 1..Len(ns) |-> IF Under(ns, n, m) /\ Error(ns, n) = "" THEN [ns[n] EXCEPT !.err = e] ELSE ns[n]]
Add(ns, up, node) == Append(ns, [node EXCEPT !.up = up, !.err = Error(ns, up)])
Plain == [up |-> 0, k |-> "", v |-> "", dl |-> "none", err |-> "", kind |-> "value"]
Signals(ns) == {n \in 1..Len(ns) : ns[n].kind = "signal"}
RECURSIVE CancelAll(_, _, _)
CancelAll(ns, S, e) == IF S = {} THEN ns ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN CancelAll(Cancel(ns, m, e), S \ {m}, e)

See(ns, n, c, stage) ==
  [at |-> c, stage |-> stage, vals |-> [i \in 1..Len(Asked(sc, c)) |-> ValueAt(ns, n, Asked(sc, c)[i])],
   dl |-> Deadline(ns, n),
   err |-> IF stage \in {"after", "fafter"} THEN "-" ELSE Error(ns, n)]  \* what is canceled in After comes in no promised order

Step ==
  /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED sid
  /\ LET e == Head(todo)
         c == e.c
         t == e.t
         here == at[c]
         to(ns, n) == /\ nodes' = ns
                      /\ at' = IF e.stage \in {"uses", "fuses"} THEN [d \in 1..3 |-> n] ELSE [at EXCEPT ![c] = n]
                      /\ log' = Append(log, See(ns, n, c, e.stage))
     IN CASE t.do = "look" -> to(nodes, here) /\ UNCHANGED made
          [] t.do = "set" -> to(Add(nodes, here, [Plain EXCEPT !.k = t.k, !.v = t.v]), Len(nodes) + 1) /\ UNCHANGED made
          [] t.do = "reset" -> to(Append(nodes, [Plain EXCEPT !.k = t.k, !.v = t.v]), Len(nodes) + 1) /\ UNCHANGED made
          [] t.do = "timeout" ->
               LET ns == Add(nodes, here, [Plain EXCEPT !.dl = t.v, !.kind = "timeout"])
                   n == Len(ns)
               IN /\ to(IF t.v = "near" THEN Cancel(ns, n, "deadline") ELSE ns, n)
                  /\ made' = Append(made, n)
          [] t.do = "signal" ->
               /\ to(Add(nodes, here, [Plain EXCEPT !.kind = "signal"]), Len(nodes) + 1)
               /\ made' = Append(made, Len(nodes) + 1)
          [] t.do = "raise" -> to(CancelAll(nodes, Signals(nodes), "canceled"), here) /\ UNCHANGED made
          [] t.do = "cancel" -> to(Cancel(nodes, Root, "canceled"), here) /\ UNCHANGED made
          [] t.do = "enter" ->   \* a command starts from where the command above it is, and from its own Uses
               /\ UNCHANGED <<nodes, log, made>>
               /\ at' = IF c = 1 THEN at ELSE [at EXCEPT ![c] = at[c - 1]]
          [] t.do = "end" -> UNCHANGED <<nodes, at, log, made>>

Done == todo = <<>>
(* a handler never sees less than those of the commands around it saw before: without a reset, the base stays *)
Safety ==
  /\ \A i \in 1..Len(log) : (\A j \in 1..Len(sc.steps) : sc.steps[j].do # "reset") => log[i].vals[1] = "0"
  /\ \A n \in 1..Len(nodes) : nodes[n].up < n
  /\ \A i \in 1..Len(log) : log[i].err = "deadline" => log[i].dl = "near"
\* every timeout and signal handler is released at the end of the run
Outcome == [err |-> "ok", log |-> log, released |-> [i \in 1..Len(made) |-> TRUE]]
=============================================================================
