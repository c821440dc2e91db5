-------------------------------- MODULE Meta --------------------------------
(* What describes a flag, an arg, a command or a value: its name, aliases,   *)
(* texts, metadata, environment variables, value and completion.  They come  *)
(* from its definition, from customizations made by the app, and from the    *)
(* steps of its Uses (prototypes, setters, set-up functions), then of its    *)
(* Before.  Also the accessory flags of an element.  One action per step.    *)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, f, prev, first, cmd, flags, res, obs
vars == <<sid, sc, pc, todo, f, prev, first, cmd, flags, res, obs>>

At(s, a) == SelectSeq(s.steps, LAMBDA x : x.at = a)
MetaInit(x) ==
  /\ sid = x
  /\ sc = Scen(x)
  /\ pc = IF sc.op = "acc" THEN "acc" ELSE "cust"
  /\ todo = IF sc.op = "acc" THEN sc.accs ELSE At(sc, "cust")
  /\ f = sc.init
  /\ prev = (sc.prev = "parent")
  /\ first = sc.init.name        \* its name when its initialization starts
  /\ cmd = <<>> /\ flags = <<>> /\ res = "ok" /\ obs = [done |-> FALSE]

Element == sc.el # "value"
Put(d, k, v) == Append(SelectSeq(d, LAMBDA p : p[1] # k), <<k, v>>)
Del(d, k) == SelectSeq(d, LAMBDA p : p[1] # k)
RECURSIVE PutAll(_, _)
PutAll(d, e) == IF e = <<>> THEN d ELSE PutAll(Put(d, e[1][1], e[1][2]), Tail(e))
Without(a, v) == SelectSeq(a, LAMBDA x : x # v)

(* A prototype fills in what isn't set, and adds to what is a collection. *)
Fill(old, new) == IF old = "" THEN new ELSE old
Over(old, new) == IF new = "" THEN old ELSE new
Text(old, new) == IF Element THEN Fill(old, new) ELSE Over(old, new)   \* a value doesn't tell what it has
Proto(g, p, su) ==
  LET a == [g EXCEPT !.help = Text(@, p.help), !.cat = Text(@, p.cat), !.man = Text(@, p.man), !.use = Text(@, p.use),
                     !.desc = Text(@, p.desc), !.data = PutAll(@, p.data),
                     !.def = IF sc.el = "cmd" THEN @ ELSE Text(@, p.def), !.hid = @ \/ p.hid]
      b == IF sc.el = "value" THEN [a EXCEPT !.al = IF p.al = <<>> THEN @ ELSE p.al]
           ELSE [a EXCEPT !.name = Fill(@, p.name), !.comp = Fill(@, p.comp), !.al = IF sc.el = "arg" THEN @ ELSE @ \o p.al]
      c == IF sc.el \in {"flag", "arg"}
           THEN [b EXCEPT !.env = @ \o p.env, !.file = Fill(@, p.file), !.val = Fill(@, p.val),
                          !.narg = IF sc.el = "arg" /\ @ = 0 THEN p.narg ELSE @]
           ELSE b
  IN  IF su = "" THEN c ELSE [c EXCEPT !.data = Put(@, "su", su)]

(* A step, in initialization (init) or later, when set-up is or isn't prevented. *)
Do(g, s, init) ==
  CASE s.k = "help" -> [g EXCEPT !.help = s.v]
    [] s.k = "cat" -> [g EXCEPT !.cat = s.v]
    [] s.k = "man" -> [g EXCEPT !.man = s.v]
    [] s.k = "use" -> [g EXCEPT !.use = s.v]
    [] s.k = "desc" -> [g EXCEPT !.desc = s.v]
    [] s.k = "name" -> [g EXCEPT !.name = s.v]
    [] s.k = "data" -> [g EXCEPT !.data = Put(@, s.key, s.v)]
    [] s.k = "undata" -> [g EXCEPT !.data = Del(@, s.key)]
    [] s.k = "alias" -> IF sc.el \notin {"flag", "cmd"} THEN g
                        ELSE [g EXCEPT !.al = @ \o (IF s.key = "add" THEN <<s.v>> ELSE <<s.v, s.v \o "x">>)]
    [] s.k = "unalias" -> IF sc.el \notin {"flag", "cmd"} THEN g ELSE [g EXCEPT !.al = Without(@, s.v)]
    [] s.k = "fsetup" -> IF init /\ ~prev /\ sc.el = "flag" THEN [g EXCEPT !.help = s.v] ELSE g
    [] s.k = "asetup" -> IF init /\ ~prev /\ sc.el = "arg" THEN [g EXCEPT !.help = s.v] ELSE g
    [] s.k = "proto" -> IF init /\ prev THEN g ELSE Proto(g, s.f, s.su)
    [] OTHER -> g
(* the command that CommandSetup is about *)
Owner(g) == IF sc.el = "cmd" THEN g.name ELSE IF sc.home = "sub" THEN "s" ELSE "app"
Matches(s) == s.at # "cust" \/ s.pat = "*" \/ s.pat = f.name

Stage(next) == CASE next = "uses" -> At(sc, "uses") [] next = "again" -> At(sc, "cust") [] next = "before" -> At(sc, "before") [] OTHER -> <<>>
Next1 == CASE pc = "cust" -> "uses"
           [] pc = "uses" -> IF f.name # first THEN "again" ELSE "names"   \* customizations are for the new name too
           [] pc = "again" -> "names"
           [] pc = "names" -> IF res = "ok" THEN "before" ELSE "end"
           [] OTHER -> "end"
Describe ==
  /\ pc \in {"cust", "uses", "again", "before"} /\ todo # <<>>
  /\ LET s == Head(todo) IN
     /\ f' = IF Matches(s) THEN Do(f, s, pc # "before") ELSE f
     /\ cmd' = IF Matches(s) /\ s.k = "csetup" /\ pc # "before" /\ ~prev THEN Append(cmd, Owner(f) \o "=" \o s.v) ELSE cmd
     /\ prev' = (prev \/ s.k = "prevent")
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<sid, sc, pc, first, flags, res, obs>>
Advance ==
  /\ pc \in {"cust", "uses", "again", "names", "before"}
  /\ pc = "names" \/ todo = <<>>
  /\ pc' = Next1 /\ todo' = Stage(Next1)
  /\ prev' = (prev \/ (pc = "cust" /\ sc.prev = "own"))
  /\ IF pc = "names"
     THEN /\ res' = IF f.name = "" /\ sc.el = "flag" THEN "internal" ELSE "ok"
          /\ f' = IF f.name = "" /\ sc.el = "arg" THEN [f EXCEPT !.name = "_1"] ELSE f
     ELSE UNCHANGED <<res, f>>
  /\ UNCHANGED <<sid, sc, first, cmd, flags, obs>>

(* Accessory flags: named by the prototype, after the element, or as given. *)
Accessory ==
  /\ pc = "acc" /\ todo # <<>>
  /\ LET a == Head(todo)
         base == IF a.name = "" THEN a.pname ELSE IF a.name = "-" THEN sc.init.name \o "-" \o a.pname ELSE a.name
         name == IF a.extra = "name" THEN "xn" ELSE base
     IN /\ flags' = Append(flags, [name |-> name, cat |-> IF a.extra = "cat" THEN "xc" ELSE Fill(a.pcat, sc.init.cat),
                                   dep |-> sc.init.name, use |-> TRUE, val |-> TRUE])
        /\ res' = IF a.late \/ name = "" \/ name = sc.init.name \/ (\E i \in 1..Len(flags) : flags[i].name = name) THEN "internal" ELSE res
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<sid, sc, pc, f, prev, first, cmd, obs>>
EndAcc ==
  /\ pc = "acc" /\ todo = <<>>
  /\ pc' = "end" /\ UNCHANGED <<sid, sc, todo, f, prev, first, cmd, flags, res, obs>>

(* What is seen from outside. *)
Env(n) == CASE n = "E1" -> "11" [] n = "E2" -> "22" [] n = "E3" -> "33" [] OTHER -> ""
ValType == IF sc.el \notin {"flag", "arg"} THEN "" ELSE IF f.val # "" THEN f.val
           ELSE IF f.narg # 0 THEN "[]string" ELSE "string"
FromEnv ==
  LET i == FirstIdx(f.env, LAMBDA e : Env(e) # "")
      v == IF i = 0 THEN "" ELSE Env(f.env[i])
  IN  CASE ValType = "int" -> IF v = "" THEN "0" ELSE v
        [] ValType = "bool" -> "false"     \* none of them is a bool
        [] ValType = "[]string" -> "[" \o v \o "]"
        [] OTHER -> v
Names == <<"f", "nn", "pn", "a1", "a2", "a3", "q", "a1x">>
Keys == <<"k1", "k2", "k3", "k4">>
Get(d, k) == LET i == FirstIdx(d, LAMBDA p : p[1] = k) IN IF i = 0 THEN "none" ELSE d[i][2]
Look(k) ==
  LET own == IF sc.el = "value" THEN "none" ELSE Get(f.data, k)
      home == IF sc.home = "sub" THEN Get(sc.hdata, k) ELSE "none"
  IN  IF own # "none" THEN own ELSE IF home # "none" THEN home ELSE Get(sc.pdata, k)
Order(k) == CASE k = "k1" -> 1 [] k = "k2" -> 2 [] k = "k3" -> 3 [] k = "k4" -> 4 [] OTHER -> 5
Sorted(d) == SortSeq(d, LAMBDA p, q : Order(p[1]) < Order(q[1]))
Nothing == [name |-> "", help |-> "", cat |-> "", man |-> "", use |-> "", desc |-> "", def |-> "", data |-> <<>>, al |-> <<>>, env |-> <<>>,
            file |-> "", hid |-> FALSE, val |-> "", comp |-> "", narg |-> 0]
Finish ==
  /\ pc = "end"
  /\ obs' = [res |-> res, same |-> TRUE,
             f |-> IF sc.op = "acc" \/ res # "ok" THEN Nothing ELSE [f EXCEPT !.data = Sorted(@), !.val = ValType],
             usable |-> IF sc.op = "el" /\ res = "ok" /\ sc.el \in {"flag", "cmd"}
                        THEN SelectSeq(Names, LAMBDA n : n = f.name \/ n \in Range(f.al)) ELSE <<>>,
             envval |-> IF sc.op = "el" /\ res = "ok" /\ sc.el \in {"flag", "arg"} THEN FromEnv ELSE "",
             look |-> IF sc.op = "el" /\ res = "ok" THEN [i \in 1..4 |-> Look(Keys[i])] ELSE <<>>,
             cmd |-> IF res = "ok" /\ sc.op = "el" THEN cmd ELSE <<>>,
             flags |-> IF res = "ok" THEN flags ELSE <<>>]
  /\ pc' = "done" /\ UNCHANGED <<sid, sc, todo, f, prev, first, cmd, flags, res>>

Step == Describe \/ Advance \/ Accessory \/ EndAcc \/ Finish
Done == pc = "done"
Outcome == obs
Agrees(o) ==
  /\ o.res = obs.res
  /\ o.res = "ok" =>
       /\ o.same /\ o.usable = obs.usable /\ o.envval = obs.envval /\ o.look = obs.look /\ o.cmd = obs.cmd /\ o.flags = obs.flags
       /\ o.f = obs.f
Safety ==
  (* a prototype never changes a text that an element has; nor is anything lost by one *)
  /\ (pc \in {"uses", "again"} /\ todo # <<>> /\ Head(todo).k = "proto" /\ Element)
       => LET g == Do(f, Head(todo), TRUE) IN
            /\ (f.help # "" => g.help = f.help) /\ (f.name # "" => g.name = f.name) /\ (f.val # "" => g.val = f.val)
            /\ Range(f.al) \subseteq Range(g.al) /\ Range(f.env) \subseteq Range(g.env)
  /\ (Done /\ sc.op = "acc" /\ res = "ok") => Len(flags) = Len(sc.accs)
=============================================================================
