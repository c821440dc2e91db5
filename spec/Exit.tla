-------------------------------- MODULE Exit --------------------------------
(* One whole run of a process: handlers of a root command with a flag -x and *)
(* a sub-command with a flag -y, what each of them returns, and the status   *)
(* and message with which the process ends.                                  *)
(*                                                                           *)
(* scenario: rt, st    tokens -x --help --version (-y) at the root, at sub   *)
(*           rbad, sbad  "" or a token that is not acceptable there          *)
(*           sub       "" | "sub" | a name that is no command                *)
(*           xe, ye    the flag has the Exits option                         *)
(*           h         sequence of [id, r]: what handler id does             *)
(*           mode      "proc": the default exit handler in a process of its  *)
(*                     own; "hand": an exit handler that records its calls   *)
(* r: [t |-> "ok" | "err" (s) | "exit" (args) | "coder" (s, n) | "code" (s)  *)
(*           | "panic" (s) under Recover]                                    *)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, k, pan, out, end
vars == <<sid, k, pan, out, end>>
sc == Scen(sid)

Ok == [t |-> "ok", s |-> "", n |-> 0, args |-> <<>>]
Res(id) == LET p == FirstIdx(sc.h, LAMBDA e : e.id = id) IN IF p = 0 THEN Ok ELSE sc.h[p].r
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
H(id, lev) == <<[e |-> "h", id |-> id, lev |-> lev]>>
Stop0 == <<[e |-> "exit0", id |-> "", lev |-> ""]>>
If(c, s) == IF c THEN s ELSE <<>>
Missing(name) == <<[e |-> "nocmd", id |-> name, lev |-> ""]>>
Inherited(toks, lev) == \* the flags of the root, where they are used
  If(Has(toks, "-x"), H("ax", lev) \o If(sc.xe, Stop0))
  \o If(Has(toks, "--help"), \* describes the command that is named after it
       (IF lev = "root" /\ sc.sub \notin {"", "sub"} THEN Missing(sc.sub) ELSE Stop0)) \o If(Has(toks, "--version"), Stop0)
Usage(tok) == <<[e |-> "usage", id |-> tok, lev |-> ""]>>
(* every event of the run that nothing stops, in order *)
Events ==
  H("ui", "root") \o H("ux", "root") \o H("us", "sub") \o H("uy", "sub")
  \o If(sc.rbad # "", Usage(sc.rbad))
  \o H("br", "root") \o H("bx", "root")
  \o Inherited(sc.rt, "root")
  \o (IF sc.sub = "" THEN H("ar", "root")
      ELSE IF sc.sub # "sub" THEN Missing(sc.sub)
      ELSE If(sc.sbad # "", Usage(sc.sbad))
           \o H("bs", "sub") \o H("by", "sub")
           \o Inherited(sc.st, "sub")
           \o If(Has(sc.st, "-y"), H("ay", "sub") \o If(sc.ye, Stop0))
           \o H("as", "sub")
           \o H("fs", "sub") \o H("fy", "sub") \o <<[e |-> "check", id |-> "sub", lev |-> "sub"]>>)
  \o H("fr", "root") \o H("fx", "root") \o <<[e |-> "check", id |-> "root", lev |-> "root"]>>

(* texts *)
Codes == [UnexpectedArgument |-> "unexpected argument", CommandNotFound |-> "is not a command", UnknownOption |-> "unknown option",
          MissingArgument |-> "missing parameter", InvalidArgument |-> "parameter not valid", ExpectedArgument |-> "expected argument",
          UnknownExpr |-> "unknown expression", FlagUsedAfterArgs |-> "flag used after arguments",
          ExpectedRequiredOption |-> "is required and must be specified"]
Text(a) == CASE a.t \in {"s", "e", "x"} -> a.s [] a.t = "i" -> ToString(a.n) [] a.t = "n" -> "<nil>" [] a.t = "c" -> Codes[a.s]
RECURSIVE Sprint(_)
Sprint(as) == IF as = <<>> THEN "" ELSE IF Len(as) = 1 THEN Text(as[1])
              ELSE Text(as[1]) \o (IF as[1].t # "s" /\ as[2].t # "s" THEN " " ELSE "") \o Sprint(Tail(as))
E(msg, code) == [msg |-> msg, code |-> code]
Core(msg, code) == E(IF msg = "" THEN "exited with status " \o ToString(code) ELSE msg, code)
ExitOf(as) ==
  IF as = <<>> THEN Core("", 1)
  ELSE LET z == as[Len(as)]  front == SubSeq(as, 1, Len(as) - 1)
       IN  IF Len(as) = 1
           THEN CASE z.t = "c" -> E(Codes[z.s], 2)
                  [] z.t = "x" -> E(z.s, z.n)
                  [] z.t = "i" -> Core("", z.n)
                  [] z.t = "n" -> Core("", 1)
                  [] OTHER -> Core(Text(z), 1)
           ELSE CASE z.t = "i" -> Core(Sprint(front), z.n)
                  [] z.t = "c" -> Core(Codes[z.s] \o ": " \o Sprint(front), 2)
                  [] OTHER -> Core(Sprint(as), 1)
UsageMsg(tok) == CASE tok = "extra" -> "unexpected argument \"extra\""
                   [] tok = "-s" -> "expected argument for -s"
                   [] OTHER -> "unknown option: " \o tok
Error(r) == CASE r.t = "err" -> E(r.s, 1) [] r.t = "exit" -> ExitOf(r.args) [] r.t = "coder" -> E(r.s, r.n)
              [] r.t = "code" -> E(Codes[r.s], 2)

None == [msg |-> "", code |-> -1]
ExitInit(i) == /\ sid = i /\ k = 1 /\ pan = [root |-> "", sub |-> ""] /\ out = <<>> /\ end = None
Finish(e) == end' = e /\ k' = Len(Events) + 1
Go == end' = end /\ k' = k + 1
Step ==
  /\ k <= Len(Events)
  /\ LET ev == Events[k]
     IN  CASE ev.e = "h" ->
                LET r == Res(ev.id)
                IN  /\ out' = Append(out, ev.id)
                    /\ pan' = IF r.t = "panic" THEN [pan EXCEPT ![ev.lev] = r.s] ELSE pan
                    /\ IF r.t \in {"ok", "panic"} THEN Go ELSE Finish(Error(r))
           [] ev.e = "exit0" -> Finish(E("exited with status 0", 0)) /\ UNCHANGED <<out, pan>>
           [] ev.e = "usage" -> Finish(E(UsageMsg(ev.id), 2)) /\ UNCHANGED <<out, pan>>
           [] ev.e = "nocmd" -> Finish(E("\"" \o ev.id \o "\" is not a command", 2)) /\ UNCHANGED <<out, pan>>
           [] ev.e = "check" ->
                LET t == IF ev.lev = "sub" /\ pan.sub # "" THEN pan.sub ELSE pan.root
                    at == IF ev.lev = "sub" THEN "app sub" ELSE "app"
                IN  /\ IF t = "" THEN Go ELSE Finish(E("internal error, at \"" \o at \o "\" (after timing): " \o t, 1))
                    /\ UNCHANGED <<out, pan>>
  /\ UNCHANGED sid

Done == k = Len(Events) + 1
Returned == end.code = -1 \* no error
Shown == IF end.msg = "" THEN "" ELSE end.msg \o "\n"
Outcome ==
  [out |-> out, ret |-> Returned \/ sc.mode = "hand",
   end |-> IF sc.mode = "hand" THEN (IF Returned THEN <<>> ELSE <<[msg |-> end.msg, code |-> end.code]>>)
           ELSE <<[msg |-> IF Returned \/ end.code = 0 THEN "" ELSE Shown, code |-> IF Returned THEN 0 ELSE end.code]>>]

(* the property, from the end state *)
Faulty == {r \in {Res(id) : id \in Range(out)} : r.t \notin {"ok", "panic"}}
Safety == Done =>
  /\ Cardinality(Faulty) <= 1
  /\ \A r \in Faulty : end = Error(r)
  /\ Returned => pan.root = "" /\ (sc.sub = "sub" => pan.sub = "") /\ sc.rbad = "" /\ sc.sub \in {"", "sub"} /\ (sc.sub = "sub" => sc.sbad = "")
  /\ end.code = 2 => \/ sc.rbad # "" \/ sc.sbad # "" \/ sc.sub \notin {"", "sub"}
                     \/ \E r \in Faulty : r.t \in {"exit", "coder", "code"}
=============================================================================
