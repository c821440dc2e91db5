------------------------------- MODULE Nav -------------------------------
(***************************************************************************)
(* Where a handler is, and what it finds from there.  The elements of a    *)
(* program form a tree of commands with their flags and args; a handler    *)
(* runs for one of them in one stage.  Each question it can ask has one    *)
(* answer, which depends on that place only.                               *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)

VARIABLES sid, k, ans
vars == <<sid, k, ans>>
sc == Scen(sid)

---------------------------------------------------------------------------
El(s, e) == s.els[e]
IsCmd(s, e) == s.els[e].k = "cmd"
\* the elements of a kind below a command, in order
Own(s, c, kind) == SelectSeq([i \in 1..Len(s.els) |-> i], LAMBDA i : s.els[i].k = kind /\ s.els[i].par = c)
\* the element and those around it, inner first
RECURSIVE Lineage(_, _)
Lineage(s, e) == IF e = 0 THEN <<>> ELSE <<e>> \o Lineage(s, s.els[e].par)
RECURSIVE Reverse(_)
Reverse(x) == IF x = <<>> THEN x ELSE Append(Reverse(Tail(x)), Head(x))
CmdOf(s, e) == IF IsCmd(s, e) THEN e ELSE s.els[e].par

Text(s, e) == CASE s.els[e].k = "cmd" -> s.els[e].name
                [] s.els[e].k = "flag" -> (IF Len(s.els[e].name) = 1 THEN "-" ELSE "--") \o s.els[e].name
                [] s.els[e].k = "arg" -> "<" \o s.els[e].name \o ">"
PathText(s, e) == LET l == Reverse(Lineage(s, e)) IN JoinStr([i \in 1..Len(l) |-> Text(s, l[i])], " ")

RECURSIVE Undash(_)
Undash(n) == IF n # "" /\ Ch(n, 1) = "-" THEN Undash(Drop(n, 1)) ELSE n
Unbracket(n) == IF n # "" /\ Ch(n, 1) = "<" THEN SubSeq(n, 2, Len(n) - 1) ELSE n
Named(s, e, n) == s.els[e].name = n \/ n \in Range(s.els[e].al)
Among(s, es, n) == LET i == FirstIdx(es, LAMBDA e : Named(s, e, n)) IN IF i = 0 THEN 0 ELSE es[i]
\* the nearest one with the name, from a command outward
RECURSIVE Nearest(_, _, _, _)
Nearest(s, c, kind, n) ==
  IF c = 0 THEN 0
  ELSE LET e == Among(s, Own(s, c, kind), n) IN IF e # 0 THEN e ELSE Nearest(s, s.els[c].par, kind, n)
Flag(s, e, n) == Nearest(s, CmdOf(s, e), "flag", Undash(n))
Arg(s, e, n) == Nearest(s, CmdOf(s, e), "arg", Unbracket(n))
\* indexes count the args of the command, negative ones from the end
At(s, c, i) == LET as == Own(s, c, "arg")
                   j == IF i < 0 THEN Len(as) + i + 1 ELSE i + 1
               IN  IF j >= 1 /\ j <= Len(as) THEN as[j] ELSE 0

RECURSIVE Above(_, _)
Above(s, c) == IF s.els[c].par = 0 THEN <<>> ELSE Above(s, s.els[c].par) \o Own(s, s.els[c].par, "flag")

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN Digits[n + 1] ELSE Num(n \div 10) \o Digits[(n % 10) + 1]
Id(e) == IF e = 0 THEN "none" ELSE Num(e)
Ids(es) == JoinStr([i \in 1..Len(es) |-> Num(es[i])], ",")
Bits(b) == JoinStr([i \in 1..Len(b) |-> IF b[i] THEN "1" ELSE "0"], "")

Last(s) == s.path[Len(s.path)]
\* the values are there from the time that the command is run
Given(s, e) == \/ e \in Range(s.used)
               \/ s.els[e].k = "arg" /\ s.els[e].par = Last(s)
SeenText(s, e) == IF e = 0 THEN "false -1" ELSE IF Given(s, e) THEN "true 1" ELSE "false 0"
Option(s, e, n) == LET f == Flag(s, e, n) IN IF f # 0 THEN f ELSE Arg(s, e, n)
\* as an option of the command of the handler
ContextText(s, e, x) == IF x = 0 THEN "none" ELSE Num(x) \o " " \o PathText(s, CmdOf(s, e)) \o " " \o Text(s, x)

\* does a handler of the element run in the stage
Runs(s, e, stage) ==
  CASE stage = "uses" -> TRUE
    [] stage \in {"before", "after"} -> CmdOf(s, e) \in Range(s.path)
    [] stage = "action" -> IF IsCmd(s, e) THEN e = Last(s) ELSE Given(s, e)
Tokens(s, c) ==  \* what the command was invoked with
  LET i == FirstIdx(s.path, LAMBDA p : p = c)
      of(p) == <<s.els[p].name>> \o [j \in 1..Len(SelectSeq(s.used, LAMBDA f : s.els[f].par = p)) |->
                                       Text(s, SelectSeq(s.used, LAMBDA f : s.els[f].par = p)[j])]
      own == Own(s, Last(s), "arg")
  IN  FlattenSeq([j \in 1..(Len(s.path) - i + 1) |-> of(s.path[i + j - 1])]) \o [j \in 1..Len(own) |-> "v" \o Num(own[j])]

\* the short name is the first of one letter, the long name the first of more, if there is one
NamesText(s, e) ==
  LET x == s.els[e]
      all == <<x.name>> \o x.al
      short == SelectSeq(all, LAMBDA n : Len(n) = 1)
      long == SelectSeq(all, LAMBDA n : Len(n) > 1)
      al == JoinStr(x.al, ",")
  IN  CASE x.k = "cmd" -> JoinStr(all, ",") \o " " \o al
        [] x.k = "arg" -> Text(s, e)
        [] x.k = "flag" -> JoinStr([i \in 1..Len(all) |-> (IF Len(all[i]) = 1 THEN "-" ELSE "--") \o all[i]], ",") \o " "
                           \o (IF short = <<>> THEN "" ELSE "-" \o short[1]) \o " --"
                           \o (IF long = <<>> THEN x.name ELSE long[1]) \o " " \o al

Answer(s, q) ==
  LET e == q.at
      c == CmdOf(s, e)
      x == s.els[e]
      cmd == IsCmd(s, e)
      index == IF cmd THEN At(s, c, q.i) ELSE 0
      byName == LET a == Arg(s, e, q.n) IN IF a # 0 THEN a ELSE Flag(s, e, q.n)
  IN
  CASE q.q = "path" -> PathText(s, e)
    [] q.q = "name" -> Text(s, e) \o " " \o Text(s, e)
    [] q.q = "lineage" -> Ids(Lineage(s, e))
    [] q.q = "parent" -> Id(x.par)
    [] q.q = "root" -> "1"
    [] q.q = "near" -> Num(c) \o (IF cmd THEN "" ELSE " " \o (IF x.k = "flag" THEN "f" ELSE "a") \o Num(e))
    [] q.q = "kind" -> Bits(<<cmd, x.k = "flag", x.k = "arg", ~cmd>>) \o " "
                       \o Bits([i \in 1..4 |-> <<"uses", "before", "action", "after">>[i] = q.stage]) \o " " \o q.stage
    [] q.q = "app" -> "true"
    [] q.q = "flags" -> IF cmd THEN Ids(Above(s, e) \o Own(s, e, "flag")) ELSE ""
    [] q.q = "lflags" -> IF cmd THEN Ids(Own(s, e, "flag")) ELSE ""
    [] q.q = "pflags" -> IF cmd THEN Ids(Above(s, e)) ELSE ""
    [] q.q = "largs" -> Ids(Own(s, e, "arg"))
    [] q.q \in {"flag", "rune"} -> Id(Flag(s, e, q.n))
    [] q.q \in {"arg", "argrune"} -> Id(Arg(s, e, q.n))
    [] q.q = "index" -> Id(index)
    \* a command by itself has only what it declares
    [] q.q = "cmdflag" -> Id(Among(s, Own(s, c, "flag"), Undash(q.n)))
    [] q.q = "cmdarg" -> Id(Among(s, Own(s, c, "arg"), Unbracket(q.n)))
    [] q.q = "cmdindex" -> Id(At(s, c, q.i))
    [] q.q = "cmdcmd" -> Id(Among(s, Own(s, c, "cmd"), q.n))
    [] q.q = "appflag" -> Id(Among(s, Own(s, 1, "flag"), Undash(q.n)))
    [] q.q = "apparg" -> Id(Among(s, Own(s, 1, "arg"), Unbracket(q.n)))
    [] q.q = "appcmd" -> Id(Among(s, Own(s, 1, "cmd"), q.n))
    [] q.q = "names" -> NamesText(s, e)
    [] q.q = "pathkind" -> Bits(<<cmd, x.k = "flag", x.k = "arg">>)
    [] q.q = "cmd" -> IF cmd THEN Id(Among(s, Own(s, e, "cmd"), q.n)) ELSE "none"
    [] q.q = "ptr" -> Id(q.i)
    [] q.q = "ctxname" -> ContextText(s, e, byName)
    [] q.q = "ctxrune" -> ContextText(s, e, Flag(s, e, q.n))
    [] q.q = "ctxindex" -> ContextText(s, e, At(s, c, q.i))
    [] q.q = "ctxptr" -> Num(q.i) \o " " \o Num(c)
    [] q.q \in {"seen", "seenrune"} -> SeenText(s, Option(s, e, q.n))
    [] q.q = "values" -> LET as == Own(s, e, "arg") IN JoinStr([i \in 1..Len(as) |-> IF Given(s, as[i]) THEN "v" \o Num(as[i]) ELSE ""], ",")
    [] q.q = "args" -> JoinStr(Tokens(s, c), " ")

NavInit(i) == sid = i /\ k = 1 /\ ans = <<>>
Step == /\ k <= Len(sc.qs)
        /\ ans' = Append(ans, LET q == sc.qs[k] IN IF Runs(sc, q.at, q.stage) THEN Answer(sc, q) ELSE "")
        /\ k' = k + 1 /\ UNCHANGED sid
Done == k > Len(sc.qs)
(* where answers meet: inherited and own flags make up the flags, and what is found by name is visible from there *)
Safety ==
  \A c \in 1..Len(sc.els) :
    /\ Lineage(sc, c)[Len(Lineage(sc, c))] = 1
    /\ IsCmd(sc, c) => \A f \in Range(Own(sc, c, "flag")) : Flag(sc, c, sc.els[f].name) = f
Outcome == [err |-> "ok", res |-> ans]
=============================================================================
