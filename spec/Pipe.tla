-------------------------------- MODULE Pipe --------------------------------
(* Pipelines and middleware: an action program is a tree of nodes            *)
(*   [o, id, xs, form], and running it is a machine with an explicit stack.  *)
(*                                                                           *)
(*   log, err        record id; err also fails with id                       *)
(*   pipe            Pipeline(xs...), which flattens the pipelines in it     *)
(*   lit             ActionPipeline{xs...}, which keeps them as groups       *)
(*   append, prepend xs[1] is a pipeline to which the others are added       *)
(*   fork, forkpre   xs[1] extended with xs[2]; the same xs[1] is extended   *)
(*                   with xs[3] as well, and that one is not run             *)
(*   ift iff ifnil   IfMatch: the filter matches, does not, is nil (no wrapper) *)
(*   assertt assertf Assert likewise                                         *)
(*   supp            SuppressError;   dox: a handler that calls Do(xs[1])    *)
(*   nil             no action                                               *)
(*   mw.*            middleware: what it does around the rest of the pipeline*)
(*                                                                           *)
(* A scenario is [place, defs, act]: act is run as the Before, Action or     *)
(* After of a command, flag or argument, or through Do; for an Action, defs  *)
(* are actions that Uses had deferred to it.                                 *)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, st, ret, out
vars == <<sid, st, ret, out>>
sc == Scen(sid)

RECURSIVE V(_)
V(n) == IF n.o = "ifnil" THEN V(n.xs[1]) ELSE n \* IfMatch with a nil filter is the action itself
Vs(s) == [i \in 1..Len(s) |-> V(s[i])]
IsMw(n) == StartsWith(n.o, "mw.")
IsPl(n) == n.o \in {"pipe", "lit", "append", "prepend", "fork", "forkpre"}
RECURSIVE Items(_), Flat(_)
Items(n) ==
  CASE n.o = "pipe" -> Flat(Vs(n.xs))
    [] n.o = "lit" -> Vs(n.xs)
    [] n.o = "append" -> Items(n.xs[1]) \o Vs(Tail(n.xs))
    [] n.o = "prepend" -> Vs(Tail(n.xs)) \o Items(n.xs[1])
    [] n.o = "fork" -> Items(n.xs[1]) \o <<V(n.xs[2])>>
    [] n.o = "forkpre" -> <<V(n.xs[2])>> \o Items(n.xs[1])
Flat(s) == FlattenSeq([i \in 1..Len(s) |-> IF IsPl(s[i]) THEN Flat(Items(s[i])) ELSE <<s[i]>>])
FlatOf(n) == Flat(<<V(n)>>)

(* deferred actions: middleware goes around what is there, others follow it *)
RECURSIVE Deferred(_)
Deferred(ds) ==
  IF ds = <<>> THEN <<>>
  ELSE LET d == V(ds[Len(ds)])  p == Deferred(SubSeq(ds, 1, Len(ds) - 1))
       IN  IF IsMw(d) THEN <<d>> \o p ELSE p \o FlatOf(d)

Seq1(s) == [f |-> "seq", rest |-> s]
Call(n) == [f |-> "call", n |-> V(n)]
Mw(n, next) == [f |-> "mw", n |-> n, next |-> next, pc |-> 0]
Start ==
  IF sc.place \in {"cmd", "flag", "arg"} THEN <<Seq1(Deferred(sc.defs) \o FlatOf(sc.act))>> ELSE <<Call(sc.act)>>

PipeInit(i) == /\ sid = i /\ st = Start /\ ret = "run" /\ out = <<>>

top == Head(st)
rest == Tail(st)
Say(x) == out' = Append(out, x)
Quiet == out' = out
Pop(r) == st' = rest /\ ret' = r
Swap(fs) == st' = fs \o rest /\ ret' = "run"
IsErr(r) == r \notin {"run", "ok"}

SeqStep ==
  IF ret = "run"
  THEN /\ Quiet
       /\ IF top.rest = <<>> THEN Pop("ok")
          ELSE LET h == Head(top.rest)  t == Tail(top.rest)
               IN  IF IsMw(h) THEN Swap(<<Mw(h, t)>>) ELSE Swap(<<Call(h), Seq1(t)>>)
  ELSE Quiet /\ IF IsErr(ret) THEN Pop(ret) ELSE st' = st /\ ret' = "run"

CallStep ==
  LET n == top.n
  IN  CASE n.o = "log" -> Say(n.id) /\ Pop("ok")
        [] n.o = "err" -> Say(n.id) /\ Pop(n.id)
        [] n.o \in {"nil", "iff"} -> Quiet /\ Pop("ok")
        [] n.o \in {"ift", "assertt", "dox"} -> Quiet /\ Swap(<<Call(n.xs[1])>>)
        [] n.o = "assertf" -> Quiet /\ Pop("assert")
        [] n.o = "supp" -> Quiet /\ Swap(<<Call(n.xs[1]), [f |-> "supp"]>>)
        [] IsPl(n) -> Quiet /\ Swap(<<Seq1(Items(n))>>)
        [] IsMw(n) -> Quiet /\ Swap(<<Mw(n, <<>>)>>)

MwStep ==
  LET n == top.n  id == n.id
      Next(pc) == Swap(<<Seq1(top.next), [top EXCEPT !.pc = pc]>>)
      K(k) == n.o = "mw." \o k
  IN  IF ret = "run"
      THEN CASE K("before") \/ K("around") \/ K("wrap") -> Say(id \o "<") /\ Next(1)
             [] K("after") \/ K("swallow") \/ K("replace") \/ K("fail") \/ K("twice") -> Quiet /\ Next(1)
             [] K("skip") \/ K("wrapdrop") -> Say(id) /\ Pop("ok")
             [] K("failfirst") -> Say(id) /\ Pop(id)
             [] K("wrapnil") -> Quiet /\ Pop("ok")
      ELSE CASE K("before") -> Quiet /\ Pop(ret)
             [] K("after") -> Say(id \o ">") /\ Pop(ret)
             [] K("around") \/ K("wrap") -> (IF IsErr(ret) THEN Quiet ELSE Say(id \o ">")) /\ Pop(ret)
             [] K("swallow") -> Say(id \o ">") /\ Pop("ok")
             [] K("replace") -> Quiet /\ Pop(IF IsErr(ret) THEN id ELSE "ok")
             [] K("fail") -> Say(id \o ">") /\ Pop(id)
             [] K("twice") -> IF IsErr(ret) \/ top.pc = 2 THEN Quiet /\ Pop(ret) ELSE Quiet /\ Next(2)

Step ==
  /\ st # <<>>
  /\ CASE top.f = "seq" -> SeqStep
       [] top.f = "supp" -> Quiet /\ Pop("ok")
       [] top.f = "call" -> CallStep
       [] top.f = "mw" -> MwStep
  /\ UNCHANGED sid

Done == st = <<>> /\ ret # "judged"
Outcome == [out |-> out, res |-> ret]

(* What C12 asks, read off the end state without the machine: *)
RECURSIVE Leaves(_), HasO(_, _)
Leaves(n) == IF n.o = "log" THEN <<n.id>> ELSE IF IsPl(n) THEN FlattenSeq([i \in 1..Len(Items(n)) |-> Leaves(Items(n)[i])])
             ELSE IF n.o \in {"ift", "ifnil", "assertt", "dox", "supp"} THEN Leaves(n.xs[1]) ELSE <<>>
HasO(n, S) == n.o \in S \/ \E i \in 1..Len(n.xs) : HasO(n.xs[i], S)
Plain == ~ \E k \in {"before", "after", "around", "wrap", "skip", "wrapdrop", "failfirst", "wrapnil", "swallow", "replace", "fail", "twice"} :
              HasO(sc.act, {"mw." \o k}) \/ \E i \in 1..Len(sc.defs) : HasO(sc.defs[i], {"mw." \o k})
Fails == HasO(sc.act, {"err", "assertf"}) \/ \E i \in 1..Len(sc.defs) : HasO(sc.defs[i], {"err", "assertf"})
\* without middleware and failures: every action once, in order, however grouped
InOrder == (Done /\ Plain /\ ~Fails) => /\ ret = "ok"
                                         /\ out = FlattenSeq([i \in 1..Len(sc.defs) |-> Leaves(sc.defs[i])]) \o Leaves(sc.act)
\* without middleware and SuppressError, the error is that of the last action that ran
FirstErr == (Done /\ Plain /\ IsErr(ret) /\ ret # "assert" /\ ~HasO(sc.act, {"supp"})
              /\ ~ \E i \in 1..Len(sc.defs) : HasO(sc.defs[i], {"supp"})) => out # <<>> /\ out[Len(out)] = ret
Safety == InOrder /\ FirstErr
=============================================================================
