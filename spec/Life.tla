-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The run of an application: initialization of the tree of commands,      *)
(* flags and arguments, then for each selected command parsing, Before,    *)
(* Action (with dispatch of sub-commands) and After, with deferred actions,*)
(* hooks, validators, implied values, errors and changes to the tree made  *)
(* while initializing.                                                     *)
(*                                                                         *)
(* The machine has an agenda: a stack of things still to do.  A step pops  *)
(* the first and either performs it or replaces it by its parts.  An error *)
(* empties the agenda: nothing else happens.                               *)
(*                                                                         *)
(* Scenario: [els: Seq(element), argv: Seq(STRING)], element 1 the root.   *)
(*   element: [k: "cmd"|"flag"|"arg", name, aliases, kind, up (index of    *)
(*     the declaring command, 0: not declared), opts: Seq(STRING), uses,   *)
(*     before, action, after: Seq(op)]                                     *)
(* The handlers are data: sequences of ops (see Perform).                  *)
(* A context is a sequence of [el, tm], innermost first.                   *)
(***************************************************************************)
EXTENDS Binder

CONSTANT Scen(_)      \* the scenario of a run

VARIABLES sid,        \* which scenario
          ag,         \* agenda: what is still to do
          E,          \* elements: current definition and state of each
          out,        \* events the handlers produced
          res,        \* "run", or how the run failed
          hist,       \* which handlers (element, timing) were entered, in order
          done
vars == <<sid, ag, E, out, res, hist, done>>
sc == Scen(sid)

Rank(t) == CASE t = "init" -> 0 [] t \in {"before", "val", "impl"} -> 1 [] t = "action" -> 2 [] t = "after" -> 3
NoD == [init |-> <<>>, val |-> <<>>, before |-> <<>>, action |-> <<>>, after |-> <<>>]
NoH == [init |-> <<>>, before |-> <<>>, after |-> <<>>]

Declared(s, i, k) == SelectSeq([j \in 1..Len(s.els) |-> j], LAMBDA j : s.els[j].up = i /\ s.els[j].k = k)
Elem(s, i) ==
  [k |-> s.els[i].k, name |-> s.els[i].name, aliases |-> s.els[i].aliases, kind |-> s.els[i].kind,
   flags |-> Declared(s, i, "flag"), args |-> Declared(s, i, "arg"), subs |-> Declared(s, i, "cmd"),
   d |-> NoD, h |-> NoH, opts |-> {}, inited |-> FALSE, cnt |-> 0, impl |-> FALSE, raw |-> <<>>,
   val |-> (IF s.els[i].kind = "bool" THEN "false" ELSE ""), bound |-> {}, parsed |-> FALSE, didsub |-> FALSE, data |-> <<>>, nf |-> <<>>,
   helps |-> FALSE, runs |-> 0]

RootCx == <<[el |-> 1, tm |-> "init"]>>
LifeInit(id) ==
  /\ sid = id
  /\ E = [i \in 1..Len(Scen(id).els) |-> Elem(Scen(id), i)]
  /\ ag = << [k |-> "init", cx |-> RootCx], [k |-> "exec", cx |-> RootCx, argv |-> Scen(id).argv] >>
  /\ out = <<>> /\ res = "run" /\ hist = <<>> /\ done = FALSE

------------------------------------------------------------------------------
(* Contexts, paths and patterns *)
El(cx) == cx[1].el
Tm(cx) == cx[1].tm
IsCmd(cx) == E[El(cx)].k = "cmd"
Child(cx, el, tm) == <<[el |-> el, tm |-> tm]>> \o cx
At(cx, tm) == [cx EXCEPT ![1].tm = tm]
CmdCx(cx) == IF IsCmd(cx) THEN cx ELSE Tail(cx)   \* nearest command
CmdOf(cx) == El(CmdCx(cx))

Label(i) == CASE E[i].k = "cmd" -> E[i].name
              [] E[i].k = "flag" -> (IF Len(E[i].name) = 1 THEN "-" ELSE "--") \o E[i].name
              [] E[i].k = "arg" -> "<" \o E[i].name \o ">"
Path(cx) == [n \in 1..Len(cx) |-> Label(cx[Len(cx) + 1 - n].el)]

FieldMatches(pat, f) ==
  CASE pat = "*" -> ~StartsWith(f, "-") /\ ~StartsWith(f, "<")
    [] pat = "-" \/ pat = "--" -> StartsWith(f, "-")
    [] pat = "<>" -> StartsWith(f, "<") /\ ~StartsWith(f, "<-")
    [] OTHER -> pat = f \/ (StartsWith(pat, "-") /\ ("-" \o pat) = f)
Matches(pat, path) ==
  Len(pat) <= Len(path) /\ \A n \in 1..Len(pat) : FieldMatches(pat[n], path[Len(path) - Len(pat) + n])

------------------------------------------------------------------------------
(* Looking up by name from a context: the nearest enclosing command that has it *)
Strip(n) == IF StartsWith(n, "--") THEN Drop(n, 2) ELSE IF StartsWith(n, "-") THEN Drop(n, 1) ELSE n
Find(seq, n) == \* by name or alias, in order
  LET p == FirstIdx(seq, LAMBDA j : E[j].name = n \/ n \in Range(E[j].aliases)) IN IF p = 0 THEN 0 ELSE seq[p]
FindName(seq, n) ==
  LET p == FirstIdx(seq, LAMBDA j : E[j].name = n) IN IF p = 0 THEN 0 ELSE seq[p]
RECURSIVE LookFlag(_, _)
LookFlag(cx, n) == IF cx = <<>> THEN 0
                   ELSE LET f == IF IsCmd(cx) THEN Find(E[El(cx)].flags, n) ELSE 0
                        IN IF f # 0 THEN f ELSE LookFlag(Tail(cx), n)
RECURSIVE LookArg(_, _)
LookArg(cx, n) == IF cx = <<>> THEN 0
                  ELSE LET f == IF IsCmd(cx) THEN FindName(E[El(cx)].args, n) ELSE 0
                       IN IF f # 0 THEN f ELSE LookArg(Tail(cx), n)
RECURSIVE LookData(_, _)
LookData(cx, key) == IF cx = <<>> THEN ""
                     ELSE LET d == SelectSeq(E[El(cx)].data, LAMBDA p : p[1] = key)
                          IN IF d # <<>> THEN d[Len(d)][2] ELSE LookData(Tail(cx), key)
RECURSIVE NearestNF(_)
NearestNF(cx) == \* the not-found handlers of the nearest command that has any, newest last
  IF cx = <<>> THEN <<>> ELSE IF E[El(cx)].nf # <<>> THEN E[El(cx)].nf ELSE NearestNF(Tail(cx))
LookOpt(cx, n) == LET f == LookFlag(cx, n) IN IF f # 0 THEN f ELSE LookArg(cx, n)

(* Flags usable in a command: its own, then those of enclosing commands *)
RECURSIVE Inherited(_)
Inherited(cx) == IF cx = <<>> THEN <<>>
                 ELSE SelectSeq(E[El(cx)].flags, LAMBDA f : "NonPersistent" \notin E[f].opts) \o Inherited(Tail(cx))
Usable(cx) == E[El(cx)].flags \o Inherited(Tail(cx))
RECURSIVE Above(_)
Above(cx) == IF cx = <<>> THEN <<>> ELSE Above(Tail(cx)) \o E[El(cx)].flags   \* outermost first

(* Values by name: the nearest command whose parse knows the name *)
RECURSIVE LookValue(_, _)
LookValue(cx, n) ==
  IF cx = <<>> THEN "nil"
  ELSE LET known == IF IsCmd(cx) /\ E[El(cx)].parsed
                    THEN LET byName(m) == LET a == FindName(E[El(cx)].args, m)
                                          IN IF a # 0 THEN a ELSE FindName(Usable(cx), m)
                             k == byName(n)
                             f == Find(Usable(cx), n)   \* an alias stands for the name
                         IN IF k # 0 \/ f = 0 THEN k ELSE byName(E[f].name)
                    ELSE 0
       IN IF known # 0 THEN E[known].val ELSE LookValue(Tail(cx), n)

------------------------------------------------------------------------------
(* Effects *)
Push(items) == items \o Tail(ag)
Now(items) == /\ ag' = Push(items) /\ UNCHANGED <<E, out, res, hist>>
Skip == Now(<<>>)
Fails(code) == /\ ag' = <<>> /\ res' = code /\ UNCHANGED <<E, out, hist>>
Set(i, r) == /\ E' = [E EXCEPT ![i] = r] /\ ag' = Push(<<>>) /\ UNCHANGED <<out, res, hist>>

Enter(i, t, items) == /\ ag' = Push(items) /\ hist' = Append(hist, <<i, t>>) /\ UNCHANGED <<E, out, res>>
SayAnd(s, items) == /\ out' = Append(out, s) /\ ag' = Push(items) /\ UNCHANGED <<E, res, hist>>
Select(cx, s, argv) ==   \* the sub-command s of cx runs with argv
  /\ E' = [E EXCEPT ![El(cx)].didsub = TRUE]
  /\ ag' = Push(<<[k |-> "exec", cx |-> Child(cx, s, "init"), argv |-> argv]>>)
  /\ UNCHANGED <<out, res, hist>>

Ops(cx, x) == [k |-> "ops", cx |-> cx, x |-> x]
HooksOf(owner, t, cx) == [k |-> "hooks", owner |-> owner, t |-> t, cx |-> cx]
Deferred(cx, t) == [k |-> "deferred", cx |-> cx, t |-> t]

OuterFirst(cx, t) == [n \in 1..(Len(cx) - 1) |-> HooksOf(cx[Len(cx) + 1 - n].el, t, cx)]
InnerFirst(cx, t) == [n \in 1..(Len(cx) - 1) |-> HooksOf(cx[n + 1].el, t, cx)]

Event(cx, id) == id \o "|" \o JoinStr(Path(cx), " ") \o "|" \o Tm(cx)

(* an action wanted at a timing: now, later, or too late *)
Act(cx, x, t, optional, rest) ==
  IF Rank(Tm(cx)) < Rank(t)
  THEN /\ E' = [E EXCEPT ![El(cx)].d[IF t = "impl" THEN "before" ELSE t] =
                  Append(@, IF t = "impl" THEN <<[o |-> "implrun", x |-> x]>> ELSE x)]
       /\ ag' = rest /\ UNCHANGED <<out, res, hist>>
  ELSE IF Rank(Tm(cx)) = Rank(t)
  THEN /\ ag' = <<Ops(cx, IF t = "impl" THEN <<[o |-> "implrun", x |-> x]>> ELSE x)>> \o rest
       /\ UNCHANGED <<E, out, res, hist>>
  ELSE IF optional THEN ag' = rest /\ UNCHANGED <<E, out, res, hist>>
  ELSE Fails("toolate")

AddHook(cx, t, pat, x, rest) ==
  IF Rank(Tm(cx)) > Rank(t) THEN Fails("toolate")
  ELSE /\ E' = [E EXCEPT ![El(cx)].h[t] = Append(@, [pat |-> pat, x |-> x])]
       /\ ag' = rest /\ UNCHANGED <<out, res, hist>>

Remove(seq, i) == SelectSeq(seq, LAMBDA j : j # i)

(* One op of a handler *)
Perform(cx, op, rest) ==
  LET i == El(cx)
      c == CmdOf(cx)
      Then(newE) == /\ E' = newE /\ ag' = rest /\ UNCHANGED <<out, res, hist>>
      InitOnly(newE) == IF Tm(cx) # "init" THEN Fails("toolate") ELSE Then(newE)
      Pass == ag' = rest /\ UNCHANGED <<E, out, res, hist>>
      Say(s) == /\ out' = Append(out, s) /\ ag' = rest /\ UNCHANGED <<E, res, hist>>
  IN
  CASE op.o = "log" -> Say(Event(cx, op.id))
    [] op.o = "err" -> /\ out' = Append(out, Event(cx, op.id)) /\ ag' = <<>> /\ res' = "E:" \o op.id /\ UNCHANGED <<E, hist>>
    [] op.o = "at" -> Act(cx, op.x, op.t, FALSE, rest)
    [] op.o = "setup" ->
         /\ ag' = [n \in 1..Len(op.parts) |-> [k |-> "act", cx |-> cx, x |-> op.parts[n].x, t |-> op.parts[n].t, opt |-> op.opt]]
                  \o rest
         /\ UNCHANGED <<E, out, res, hist>>
    [] op.o = "hook" -> AddHook(cx, op.t, op.pat, op.x, rest)
    [] op.o = "up" -> /\ ag' = (IF Len(cx) > 1 THEN <<Ops(Tail(cx), op.x)>> ELSE <<>>) \o rest /\ UNCHANGED <<E, out, res, hist>>
    [] op.o = "addf" -> InitOnly([E EXCEPT ![c].flags = Append(@, op.el)])
    [] op.o = "adda" -> InitOnly([E EXCEPT ![c].args = Append(@, op.el)])
    [] op.o = "addc" -> InitOnly([E EXCEPT ![c].subs = Append(@, op.el)])
    [] op.o = "rmf" -> InitOnly([E EXCEPT ![c].flags = Remove(@, Find(@, op.name))])
    [] op.o = "rma" -> InitOnly([E EXCEPT ![c].args = Remove(@, FindName(@, op.name))])
    [] op.o = "rmc" -> InitOnly([E EXCEPT ![c].subs = Remove(@, Find(@, op.name))])
    [] op.o = "alias" -> InitOnly([E EXCEPT ![i].aliases = IF E[i].k = "arg" THEN @ ELSE Append(@, op.name)])
    [] op.o = "rmalias" -> InitOnly([E EXCEPT ![i].aliases = IF E[i].k = "arg" THEN @ ELSE SelectSeq(@, LAMBDA a : a # op.name)])
    [] op.o = "name" -> Then([E EXCEPT ![i].name = op.name])
    [] op.o = "option" -> \* an option used as an action in Uses
         IF op.name = "Required" /\ E[i].k = "cmd" THEN Pass
         ELSE Then([E EXCEPT ![i].opts = @ \cup {op.name}])
    [] op.o = "data" -> Then([E EXCEPT ![i].data = Append(@, <<op.key, op.v>>)])
    [] op.o = "nf" -> \* not-found handlers are kept with the command; newest last
         Then([E EXCEPT ![c].nf = IF op.ret = "default" \/ (Len(@) = 1 /\ (IF Len(@) = 1 THEN @[1].ret = "default" ELSE FALSE))
                                  THEN <<op>> ELSE Append(@, op)])
    [] op.o = "look" ->
         Say(Event(cx, op.id) \o "|f" \o ToString(LookFlag(cx, op.name)) \o "|a" \o ToString(LookArg(cx, op.name))
             \o "|d" \o LookData(cx, op.name) \o "|v" \o LookValue(cx, op.name)
             \o "|s" \o (IF LookOpt(cx, op.name) = 0 THEN "-1" ELSE ToString(E[LookOpt(cx, op.name)].cnt)))
    [] op.o = "enum" -> Act(cx, <<[o |-> "enumchk", vs |-> op.vs]>>, "val", FALSE, rest)
    [] op.o = "enumchk" ->
         IF \A n \in 1..Len(E[i].raw) : E[i].raw[n] \in Range(op.vs) THEN Pass ELSE Fails("InvalidArgument")
    [] op.o = "mutex" -> Act(cx, <<[o |-> "mutexchk", names |-> op.names]>>, "val", FALSE, rest)
    [] op.o = "mutexchk" ->
         IF E[i].cnt > 0 /\ \E n \in 1..Len(op.names) :
               LET f == LookOpt(cx, op.names[n]) IN f # 0 /\ (IF f = 0 THEN FALSE ELSE E[f].cnt > 0)
         THEN Fails("other") ELSE Pass
    [] op.o = "implv" -> Act(cx, <<[o |-> "implset", v |-> op.v]>>, "impl", FALSE, rest)
    [] op.o = "implrun" -> \* with no use on the command line
         /\ ag' = (IF E[i].cnt = 0 THEN <<Ops(cx, op.x)>> ELSE <<>>) \o rest /\ UNCHANGED <<E, out, res, hist>>
    [] op.o = "implset" -> \* set once implicitly, later attempts are ignored
         IF E[i].impl THEN Pass ELSE Then([E EXCEPT ![i].impl = TRUE, ![i].val = op.v])
    [] op.o = "implies" -> \* a hook on the enclosing command for the other option
         AddHook(Tail(cx), "before", <<(IF Len(op.name) = 1 THEN "-" ELSE "--") \o op.name>>,
                 <<[o |-> "impliedby", el |-> i, v |-> op.v]>>, rest)
    [] op.o = "impliedby" ->
         IF E[op.el].cnt > 0 /\ E[i].cnt = 0 /\ ~E[i].impl
         THEN Then([E EXCEPT ![i].impl = TRUE, ![i].val = op.v]) ELSE Pass

------------------------------------------------------------------------------
(* The parts of a run *)
UserOps(i, t) == CASE t = "init" -> sc.els[i].uses [] t = "before" -> sc.els[i].before
                   [] t = "action" -> sc.els[i].action [] t = "after" -> sc.els[i].after
DeferredOps(i, t) == IF t = "before" THEN E[i].d.val \o E[i].d.before ELSE E[i].d[t]
Contains(seq, x) == x \in Range(seq)

(* the sub-command argument exists if there are sub-commands *)
HasSubs(i) == E[i].subs # <<>> \/ E[i].helps
CmdArg == [name |-> "command", cnt |-> "m1"]

BindScen(cx, argv) ==
  LET i == El(cx)
      fl == Usable(cx)
      ar == E[i].args
  IN [flags |-> [n \in 1..Len(fl) |-> [name |-> E[fl[n]].name, aliases |-> E[fl[n]].aliases, kind |-> E[fl[n]].kind]],
      args |-> [n \in 1..Len(ar) |-> [name |-> E[ar[n]].name, cnt |-> E[ar[n]].kind]]
               \o (IF HasSubs(i) THEN <<CmdArg>> ELSE <<>>),
      rtl |-> "RightToLeft" \in E[i].opts, dfa |-> "DisallowFlagsAfterArgs" \in E[i].opts,
      sfp |-> "SkipFlagParsing" \in E[i].opts, argv |-> argv]

Last(s) == s[Len(s)]
(* the value an option shows after its occurrences es (raw: all values) *)
ShowVal(kind, k, es, raw) ==
  CASE k = "flag" /\ kind = "bool" -> (IF Last(Last(es).vals) \in {"0", "f", "false", "off"} THEN "false" ELSE "true")
    [] k = "flag" /\ kind \in {"str", "int", "opt"} -> Last(Last(es).vals)
    [] k = "arg" /\ kind = "str" -> JoinStr(raw, " ")
    [] OTHER -> JoinStr(raw, ",")

Parse(cx, argv) ==
  LET i == El(cx)
      fl == Usable(cx)
      ar == E[i].args
      b == BindAll(BindScen(cx, argv))
      Occ(j) == \* occurrences of element j
        IF Contains(fl, j) THEN OccOf(b, {"flag"}, FirstIdx(fl, LAMBDA x : x = j))
        ELSE IF Contains(ar, j) THEN OccOf(b, {"arg", "named"}, FirstIdx(ar, LAMBDA x : x = j))
        ELSE <<>>
      raw(es) == FlattenSeq([n \in 1..Len(es) |-> es[n].vals])
      sub == raw(OccOf(b, {"arg", "named"}, Len(ar) + 1))
      used == {j \in Range(fl) \cup Range(ar) : Occ(j) # <<>>}
  IN
  IF b.err # "ok" THEN Fails(b.err)
  ELSE
  /\ E' = [j \in DOMAIN E |->
             IF j = i THEN [E[j] EXCEPT !.bound = used, !.parsed = TRUE, !.runs = @ + 1]
             ELSE IF j \in used
             THEN [E[j] EXCEPT !.cnt = @ + Len(Occ(j)), !.raw = raw(Occ(j)),
                               !.val = (IF E[j].kind = "list" /\ E[j].cnt > 0 THEN E[j].val \o "," ELSE "")  \* lists continue
                                       \o ShowVal(E[j].kind, E[j].k, Occ(j), raw(Occ(j)))]
             ELSE E[j]]
  /\ ag' = Push(<<[k |-> "before", cx |-> At(cx, "before")],
                  [k |-> "action", cx |-> At(cx, "action"), invoke |-> sub],
                  [k |-> "after", cx |-> At(cx, "after")]>>)
  /\ UNCHANGED <<out, res, hist>>

(* the Action of an element: what was deferred to it, its own, and the exit if it Exits *)
Actions(cx) ==
  <<Deferred(cx, "action"), Ops(cx, UserOps(El(cx), "action"))>>
  \o (IF "Exits" \in E[El(cx)].opts THEN <<[k |-> "exit", cx |-> cx]>> ELSE <<>>)

Do(it) ==
  LET cx == it.cx
      i == El(cx)
      e == E[i]
  IN
  CASE it.k = "ops" ->
         IF it.x = <<>> THEN Skip
         ELSE Perform(cx, Head(it.x), (IF Len(it.x) > 1 THEN <<Ops(cx, Tail(it.x))>> ELSE <<>>) \o Tail(ag))
    [] it.k = "act" -> Act(cx, it.x, it.t, it.opt, Tail(ag))
    [] it.k = "deferred" ->
         Now([n \in 1..Len(DeferredOps(i, it.t)) |-> Ops(cx, DeferredOps(i, it.t)[n])])
    [] it.k = "hooks" ->
         LET hs == SelectSeq(E[it.owner].h[it.t], LAMBDA h : Matches(h.pat, Path(cx)))
         IN  Now([n \in 1..Len(hs) |-> Ops(cx, hs[n].x)])

    \* initialization
    [] it.k = "init" -> Now(OuterFirst(cx, "init") \o <<[k |-> "initself", cx |-> cx]>>)
    [] it.k = "initself" ->
         Enter(i, "init",
             <<Ops(cx, UserOps(i, "init")), [k |-> "options", cx |-> cx]>>
             \o (IF e.k = "cmd"
                 THEN <<[k |-> "initchildren", cx |-> cx, seen |-> {}], [k |-> "final", cx |-> cx]>>
                 ELSE <<[k |-> "inited", cx |-> cx]>>))
    [] it.k = "options" -> \* and the root is given the commands help and version if it has any
         Set(i, [e EXCEPT !.opts = @ \cup Range(sc.els[i].opts), !.helps = (i = 1 /\ e.subs # <<>>)])
    [] it.k = "inited" -> Set(i, [e EXCEPT !.inited = TRUE])
    \* flags, arguments and then commands, until there is nothing left that is not initialized
    [] it.k = "initchildren" ->
         LET Uninit(j) == ~E[j].inited
             fs == SelectSeq(e.flags, Uninit)
             as == SelectSeq(e.args, Uninit)
             ss == SelectSeq(e.subs, LAMBDA j : j \notin it.seen)
             One(seq) == [n \in 1..Len(seq) |-> [k |-> "initone", cx |-> cx, el |-> seq[n]]]
         IN  IF fs # <<>> THEN Now(One(fs) \o <<[k |-> "initargs", cx |-> cx], it>>)
             ELSE IF as # <<>> THEN Now(One(as) \o <<it>>)
             ELSE IF ss # <<>> THEN Now(One(ss) \o <<[it EXCEPT !.seen = @ \cup Range(ss)]>>)
             ELSE Skip
    [] it.k = "initargs" ->
         LET as == SelectSeq(e.args, LAMBDA j : ~E[j].inited)
         IN  Now([n \in 1..Len(as) |-> [k |-> "initone", cx |-> cx, el |-> as[n]]])
    [] it.k = "initone" ->  \* unless it was removed, or is initialized meanwhile
         IF E[it.el].inited \/ ~(Contains(e.flags, it.el) \/ Contains(e.args, it.el) \/ Contains(e.subs, it.el)) THEN Skip
         ELSE Now(<<[k |-> "init", cx |-> Child(cx, it.el, "init")],
                    [k |-> "renamed", cx |-> Child(cx, it.el, "init"), from |-> E[it.el].name]>>)
    [] it.k = "renamed" ->  \* hooks see it again under its new name
         IF e.name # it.from THEN Now(OuterFirst(cx, "init")) ELSE Skip
    [] it.k = "final" ->
         LET all == e.args \o e.flags
             cmdarg == IF HasSubs(i) THEN {"command"} ELSE {}
         IN  IF \/ \E m, n \in 1..Len(all) : m # n /\ E[all[m]].name = E[all[n]].name
                \/ \E m \in 1..Len(all) : E[all[m]].name \in cmdarg
                \/ \E n \in 1..Len(e.flags) : E[e.flags[n]].name = "" \/ StartsWith(E[e.flags[n]].name, "-")
             THEN Fails("internal") ELSE Skip

    \* a selected command
    [] it.k = "exec" -> Parse(cx, it.argv)
    [] it.k = "before" ->
         Enter(i, "before",
           IF e.k = "cmd"
           THEN <<HooksOf(i, "before", cx), Deferred(cx, "before"), Ops(cx, UserOps(i, "before")),
                  [k |-> "optsbefore", cx |-> cx]>> \o InnerFirst(cx, "before")
           ELSE <<Deferred(cx, "before"), Ops(cx, UserOps(i, "before")), [k |-> "required", cx |-> cx]>>
                \o InnerFirst(cx, "before"))
    [] it.k = "optsbefore" ->
         LET all == e.flags \o e.args
         IN  Now([n \in 1..Len(all) |-> [k |-> "before", cx |-> Child(cx, all[n], "before")]])
    [] it.k = "required" ->
         IF "Required" \in e.opts /\ e.cnt = 0 THEN Fails("ExpectedRequiredOption") ELSE Skip
    [] it.k = "action" ->
         LET fs == SelectSeq(Above(Tail(cx)), LAMBDA f : f \in e.bound)  \* used here, declared further out
         IN  Now([n \in 1..Len(fs) |-> [k |-> "optaction", cx |-> Child(cx, fs[n], "action"), always |-> TRUE]]
                 \o [n \in 1..Len(e.flags) |-> [k |-> "optaction", cx |-> Child(cx, e.flags[n], "action"), always |-> FALSE]]
                 \o [n \in 1..Len(e.args) |-> [k |-> "optaction", cx |-> Child(cx, e.args[n], "action"), always |-> FALSE]]
                 \o (IF it.invoke # <<>> THEN <<[k |-> "dispatch", cx |-> cx, invoke |-> it.invoke]>> ELSE <<>>)
                 \o <<[k |-> "main", cx |-> cx]>>)
    [] it.k = "optaction" ->
         LET parent == E[El(Tail(cx))]
         IN  IF \/ it.always \/ e.cnt > 0 \/ "Trigger" \in e.opts
                \/ (e.impl /\ ("ImpliedAction" \in e.opts \/ "ImpliedAction" \in parent.opts))
             THEN Enter(i, "action", Actions(cx)) ELSE Skip
    [] it.k = "exit" -> Fails("exit:0")
    [] it.k = "dispatch" ->
         LET s == Find(e.subs, it.invoke[1])
         IN  IF s # 0 THEN Select(cx, s, Tail(it.invoke))
             ELSE Now(<<[k |-> "notfound", cx |-> cx, hs |-> NearestNF(cx), invoke |-> it.invoke]>>)
    [] it.k = "notfound" ->  \* handlers are consulted newest first until one supplies a command
         IF it.hs = <<>> THEN Fails("CommandNotFound")
         ELSE LET h == Last(it.hs)
                  older == [it EXCEPT !.hs = SubSeq(it.hs, 1, Len(it.hs) - 1)]
                  s == IF h.ret = "implicit" THEN Find(e.subs, h.name) ELSE 0
                  asked == "nf:" \o h.id \o "(" \o it.invoke[1] \o ")"  \* each is told what was not found
              IN (CASE h.ret = "default" -> Fails("CommandNotFound")
                   [] h.ret = "implicit" ->  \* as if the command named had been given
                        IF s # 0 THEN Select(cx, s, it.invoke) ELSE Now(<<older>>)
                   [] h.ret = "cmd" -> SayAnd(asked, <<[k |-> "select", cx |-> cx, el |-> h.el, argv |-> Tail(it.invoke)]>>)
                   [] h.ret = "skip" -> SayAnd(asked, <<>>)
                   [] h.ret = "nil" -> SayAnd(asked, <<older>>)
                   [] h.ret = "err" -> /\ out' = Append(out, asked) /\ ag' = <<>> /\ res' = "E:" \o h.id
                                       /\ UNCHANGED <<E, hist>>)
    [] it.k = "select" -> Select(cx, it.el, it.argv)
    [] it.k = "main" -> IF e.didsub THEN Skip ELSE Enter(i, "action", Actions(cx))
    [] it.k = "after" ->
         Now(OuterFirst(cx, "after")
             \o (IF e.k = "cmd" THEN <<HooksOf(i, "after", cx)>> ELSE <<>>)
             \o <<[k |-> "afterself", cx |-> cx]>>)
    [] it.k = "afterself" ->
         Enter(i, "after",
           <<Deferred(cx, "after"), Ops(cx, UserOps(i, "after"))>>
           \o (IF e.k = "cmd" THEN <<[k |-> "optsafter", cx |-> cx]>> ELSE <<>>))
    [] it.k = "optsafter" ->
         LET all == e.flags \o e.args
         IN  Now([n \in 1..Len(all) |-> [k |-> "after", cx |-> Child(cx, all[n], "after")]])

Step == /\ ag # <<>> /\ Do(Head(ag)) /\ UNCHANGED <<sid, done>>
MarkDone == /\ ag = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<sid, ag, E, out, res, hist>>
Outcome == [out |-> out, res |-> IF res = "run" THEN "ok" ELSE res,
            vals |-> IF res = "other" THEN <<>> ELSE [i \in DOMAIN E |-> E[i].val]]

------------------------------------------------------------------------------
(* What every run guarantees, whatever the handlers do *)
IsC(i) == E[i].k = "cmd"
Cmds(t) == SelectSeq(hist, LAMBDA h : IsC(h[1]) /\ h[2] = t)
\* a handler is entered once; only the Action of an inherited flag runs in each command where it is used
\* (and an element that was added to several commands belongs to each of them)
Owners(i) == {c \in DOMAIN E : i \in Range(E[c].flags) \cup Range(E[c].args) \cup Range(E[c].subs)}
OnceEach == \A m, n \in 1..Len(hist) : m < n /\ hist[m] = hist[n]
               => (~IsC(hist[m][1]) /\ hist[m][2] = "action") \/ Cardinality(Owners(hist[m][1])) > 1
\* initialization precedes Before precedes Action precedes After
InOrder == \A m, n \in 1..Len(hist) : m < n /\ hist[m][1] = hist[n][1] /\ Cardinality(Owners(hist[m][1])) <= 1 => Rank(hist[m][2]) <= Rank(hist[n][2])
AllInitFirst == \A m, n \in 1..Len(hist) : hist[m][2] # "init" /\ m < n => hist[n][2] # "init"
\* only the selected command has its Action run
OneAction == Len(Cmds("action")) <= 1
\* commands unwind in the reverse of the order in which they were entered
Nesting == LET b == Cmds("before")  a == Cmds("after")
           IN \A m, n \in 1..Len(a) : m < n => \E x, y \in 1..Len(b) : b[x][1] = a[n][1] /\ b[y][1] = a[m][1] /\ x < y
\* nothing happens after an error, and no command runs handlers with a command line that it rejects
Stopped == res # "run" => ag = <<>>
RejectedRunsNothing == \A n \in 1..Len(hist) : IsC(hist[n][1]) /\ hist[n][2] # "init" => E[hist[n][1]].parsed
Safety == OnceEach /\ InOrder /\ AllInitFirst /\ OneAction /\ Nesting /\ Stopped /\ RejectedRunsNothing
SafetyAtEnd == done => Safety
=============================================================================
