-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Context paths: the names from the root command to an element, the       *)
(* patterns that describe them, and what is done for the elements that a   *)
(* pattern or filter matches, during initialization and in the Before and  *)
(* After pipelines, while names change.  Also finding an element by its    *)
(* path and walking the commands.                                          *)
(*                                                                         *)
(* Scenario "match": [op, pat, path]                                       *)
(* Scenario "tree": [op, els, regs, run, given, finds, walk]               *)
(*   els:  [k (cmd flag arg val), up, name, to (new name)], the root first *)
(*   regs: [el, via (hook if), t (init before after), pat, modes, to]      *)
(*   run:  the command that is run; given: options on the command line     *)
(*   finds: [from, path]; walk: [from, skip, stop]                         *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, agenda, name, log
vars == <<sid, sc, pc, agenda, name, log>>

------------------------------------------------------------------------------
(* Patterns *)
Blank == {" ", "\t", "\n"}
RECURSIVE FieldsFrom(_, _)
FieldsFrom(s, w) ==
  LET out == IF w = "" THEN <<>> ELSE <<w>> IN
  IF s = "" THEN out
  ELSE IF Ch(s, 1) \in Blank THEN out \o FieldsFrom(Drop(s, 1), "")
  ELSE FieldsFrom(Drop(s, 1), w \o Ch(s, 1))
Fields(s) == FieldsFrom(s, "")

KindOf(f) == IF StartsWith(f, "<-") THEN "expr" ELSE IF StartsWith(f, "<") THEN "arg"
             ELSE IF StartsWith(f, "-") THEN "flag" ELSE "cmd"
Element(p, f) ==
  CASE p = "*" -> KindOf(f) = "cmd"
    [] p = "-" \/ p = "--" -> KindOf(f) = "flag"
    [] p = "<>" -> KindOf(f) = "arg"
    [] p = "<->" -> KindOf(f) = "expr"
    [] OTHER -> p = f \/ (KindOf(p) = "flag" /\ f = "-" \o p)   \* a long flag may be given one dash
Match(ps, path) ==
  Len(ps) <= Len(path) /\ \A n \in 1..Len(ps) : Element(ps[n], path[Len(path) - Len(ps) + n])

------------------------------------------------------------------------------
(* Trees *)
N == Len(sc.els)
K(i) == sc.els[i].k
Up(i) == sc.els[i].up
Label(i) == CASE K(i) = "cmd" -> name[i]
              [] K(i) = "flag" -> (IF Len(name[i]) = 1 THEN "-" ELSE "--") \o name[i]
              [] K(i) = "arg" -> "<" \o name[i] \o ">"
              [] K(i) = "val" -> "<-" \o name[i] \o ">"
RECURSIVE Above(_), PathOf(_)
Above(i) == IF Up(i) = 0 THEN <<>> ELSE Append(Above(Up(i)), Up(i))        \* outermost first
PathOf(i) == IF Up(i) = 0 THEN <<Label(i)>> ELSE Append(PathOf(Up(i)), Label(i))
Down(i, ks) == SelectSeq([j \in 1..N |-> j], LAMBDA j : Up(j) = i /\ K(j) \in ks)
Inside(i) == Down(i, {"flag", "arg"}) \o Down(i, {"cmd"}) \o Down(i, {"val"})
Options(i) == Down(i, {"flag", "arg"}) \o Down(i, {"val"})
Given(i) == i \in Range(sc.given)

Regs(owner, t) == SelectSeq([n \in 1..Len(sc.regs) |-> n], LAMBDA n : sc.regs[n].el = owner /\ sc.regs[n].t = t)
Everything(p) == Fields(p) = <<>>
(* what is attached to the element itself: conditions, and an empty pattern, which is the element *)
Own(n) == sc.regs[n].via = "if" \/ sc.regs[n].pat = ""
OwnRegs(i, t) == SelectSeq(Regs(i, t), LAMBDA n : Own(n))
Hooks(i, t) == SelectSeq(Regs(i, t), LAMBDA n : ~Own(n))

(* The filter modes: all that are named must hold *)
Mode(m, i, t) ==
  CASE m = "flag" -> K(i) = "flag"
    [] m = "arg" -> K(i) = "arg"
    [] m = "command" -> K(i) = "cmd"
    [] m = "anything" -> TRUE
    [] m = "seen" -> t # "init" /\ Given(i)
    [] m = "root" -> Up(i) = 0
    [] m = "value" -> K(i) # "cmd"
Holds(n, i, t) ==
  LET r == sc.regs[n] IN
  CASE r.via = "hook" -> (r.pat = "" \/ Match(Fields(r.pat), PathOf(i)))
    [] r.modes # <<>> -> \A x \in Range(r.modes) : Mode(x, i, t)
    [] OTHER -> Match(Fields(r.pat), PathOf(i))

PathInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ log = <<>>
  /\ IF sc.op = "match" THEN pc = "done" /\ name = <<>> /\ agenda = <<>>
     ELSE /\ pc = "run"
          /\ name = [i \in 1..Len(sc.els) |-> sc.els[i].name]
          /\ agenda = << [k |-> "init", el |-> 1], [k |-> "exec", el |-> 1] >>

RECURSIVE Applied(_, _, _)
Applied(owners, i, t) == \* hooks of the owners, for element i
  IF owners = <<>> THEN <<>>
  ELSE LET hs == Hooks(Head(owners), t) IN
       [n \in 1..Len(hs) |-> [k |-> "apply", el |-> i, t |-> t, r |-> hs[n]]] \o Applied(Tail(owners), i, t)
OwnApplied(i, t) == LET hs == OwnRegs(i, t) IN [n \in 1..Len(hs) |-> [k |-> "apply", el |-> i, t |-> t, r |-> hs[n]]]
Each(f, s) == [n \in 1..Len(s) |-> [k |-> f, el |-> s[n]]]
Around(i, t) == \* what runs for element i at the Before and After timings, outside its options
  OwnApplied(i, t) \o Applied(Above(i) \o (IF K(i) = "cmd" THEN <<i>> ELSE <<>>), i, t)
NextCmd(i) == SelectSeq(Append(Above(sc.run), sc.run), LAMBDA j : Up(j) = i)

It == Head(agenda)
Do(more) == agenda' = more \o Tail(agenda)
Same == UNCHANGED <<name, log>>

Initialize ==
  /\ It.k = "init" /\ Same
  /\ Do(Applied(Above(It.el), It.el, "init") \o OwnApplied(It.el, "init")
        \o << [k |-> "name", el |-> It.el] >>
        \o Each("init", Inside(It.el))
        \o (IF Up(It.el) = 0 THEN <<>> ELSE << [k |-> "again", el |-> It.el, was |-> name[It.el]] >>))
Rename ==
  /\ It.k = "name" /\ Do(<<>>) /\ UNCHANGED log
  /\ name' = IF sc.els[It.el].to = "" THEN name ELSE [name EXCEPT ![It.el] = sc.els[It.el].to]
Again ==  \* customizations are run again for an element whose name has changed
  /\ It.k = "again" /\ Same
  /\ Do(IF name[It.el] = It.was THEN <<>> ELSE Applied(Above(It.el), It.el, "init"))
Apply ==
  /\ It.k = "apply" /\ Do(<<>>)
  /\ IF Holds(It.r, It.el, It.t)
     THEN /\ log' = Append(log, [r |-> It.r, t |-> It.t, path |-> JoinStr(PathOf(It.el), " ")])
          /\ name' = IF sc.regs[It.r].to = "" THEN name ELSE [name EXCEPT ![It.el] = sc.regs[It.r].to]
     ELSE Same
Exec ==
  /\ It.k = "exec" /\ Same
  /\ Do(<< [k |-> "before", el |-> It.el] >> \o Each("exec", NextCmd(It.el)) \o << [k |-> "after", el |-> It.el] >>)
Pipelines ==
  /\ It.k \in {"before", "after"} /\ Same
  /\ Do(Around(It.el, It.k) \o Each(It.k, Options(It.el)))
Finish == agenda = <<>> /\ pc' = "done" /\ UNCHANGED <<sid, sc, agenda, name, log>>
Step ==
  /\ pc = "run"
  /\ \/ Finish
     \/ /\ agenda # <<>> /\ UNCHANGED <<sid, sc, pc>>
        /\ (Initialize \/ Rename \/ Again \/ Apply \/ Exec \/ Pipelines)
Done == pc = "done"

------------------------------------------------------------------------------
(* Finding and walking *)
Same1(p, f) == p = f \/ (KindOf(p) = "flag" /\ f = "-" \o p)
RelPath(from, i) == SubSeq(PathOf(i), Len(PathOf(from)), Len(PathOf(i)))
Under(from, i) == i = from \/ from \in Range(Above(i))
Find(from, path) ==
  LET P == {i \in 1..N : Under(from, i) /\ Len(RelPath(from, i)) = Len(path)
                          /\ \A n \in 1..Len(path) : Same1(path[n], RelPath(from, i)[n])}
  IN IF path = <<>> THEN from ELSE IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Found(f) == LET i == Find(f.from, f.path) IN
            IF i = 0 THEN "none" ELSE JoinStr(PathOf(i), " ")
RECURSIVE Walked(_)
Walked(todo) == \* <<visited, stopped>>
  IF todo = <<>> THEN <<<<>>, FALSE>>
  ELSE LET i == Head(todo)
           rest == Walked((IF i \in Range(sc.walk.skip) THEN <<>> ELSE Down(i, {"cmd"})) \o Tail(todo))
       IN IF i = sc.walk.stop THEN <<<<i>>, TRUE>> ELSE <<<<i>> \o rest[1], rest[2]>>

Outcome ==
  IF sc.op = "match"
  THEN LET last == sc.path[Len(sc.path)] IN
       [res |-> Match(Fields(sc.pat), sc.path), kind |-> KindOf(last), last |-> last, str |-> JoinStr(sc.path, " ")]
  ELSE LET w == Walked(<<sc.walk.from>>) IN
       [bag |-> log, finds |-> [n \in 1..Len(sc.finds) |-> Found(sc.finds[n])],
        walk |-> [n \in 1..Len(w[1]) |-> JoinStr(PathOf(w[1][n]), " ")], stopped |-> w[2]]

Count(x, s) == Cardinality({n \in 1..Len(s) : s[n] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : Count(a[n], a) = Count(a[n], b)
Agrees(obs) ==
  IF sc.op = "match" THEN obs = Outcome
  ELSE /\ {"bag", "finds", "walk", "stopped"} = DOMAIN obs
       /\ SameBag(Outcome.bag, obs.bag) /\ obs.finds = Outcome.finds
       /\ obs.walk = Outcome.walk /\ obs.stopped = Outcome.stopped

------------------------------------------------------------------------------
(* What holds of the specification itself *)
Safety ==
  /\ sc.op = "match" =>
       /\ Everything(sc.pat) => Outcome.res                            \* the empty pattern matches everything
       /\ (Outcome.res /\ Len(sc.path) > 0) =>                         \* more of a path above does not matter
            Match(Fields(sc.pat), <<"above">> \o sc.path)
       /\ LET ps == Fields(sc.pat) IN                                  \* every kind is told apart
            (ps # <<>> /\ ps[Len(ps)] \in {"*", "-", "<>", "<->"}) =>
            (Outcome.res => KindOf(ps[Len(ps)]) = Outcome.kind \/ ps[Len(ps)] = "*")
  /\ (sc.op = "tree" /\ Done) =>
       (* everything done for a pattern was done for an element that it describes (before any change of name) *)
       \A n \in 1..Len(log) : sc.regs[log[n].r].via = "hook" =>
            Match(Fields(sc.regs[log[n].r].pat), Fields(log[n].path))
=============================================================================
