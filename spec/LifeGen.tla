------------------------------ MODULE LifeGen ------------------------------
(***************************************************************************)
(* Runs enumerated from Life: every base tree, with every op of a group in *)
(* every handler position, with every command line of the tree.            *)
(***************************************************************************)
EXTENDS Life, Json
CONSTANTS Group, Deep

GenScen(x) == x

Log(id) == <<[o |-> "log", id |-> id]>>
Elm(n, k, name, aliases, kind, up) ==
  [k |-> k, name |-> name, aliases |-> aliases, kind |-> kind, up |-> up, opts |-> <<>>,
   uses |-> Log("i" \o ToString(n)), before |-> Log("b" \o ToString(n)),
   action |-> Log("x" \o ToString(n)), after |-> Log("a" \o ToString(n))]

(* trees: els, n (how many are declared; the others are added by ops), spare (flag, arg, command), argvs *)
Flat ==
  [els |-> << Elm(1, "cmd", "app", <<>>, "", 0), Elm(2, "flag", "alpha", <<"a", "al">>, "bool", 1),
              Elm(3, "flag", "m", <<"mode">>, "str", 1), Elm(4, "arg", "p", <<>>, "str", 1),
              Elm(5, "flag", "tone", <<>>, "bool", 0), Elm(6, "arg", "q", <<>>, "list", 0), Elm(7, "cmd", "fo", <<>>, "", 0) >>,
   n |-> 4, spare |-> <<5, 6, 7>>, subs |-> <<>>,
   argvs |-> <<<<"--alpha", "u">>, <<"-m", "w">>, <<>>, <<"--mode", "u", "-m", "w">>, <<"u", "-a", "--tone">>, <<"--zz", "u">>,
              <<"u", "fo">>, <<"-k", "u", "w">>, <<"--al", "u">>>>]
Tree ==
  [els |-> << Elm(1, "cmd", "app", <<>>, "", 0), Elm(2, "flag", "alpha", <<"a">>, "bool", 1),
              Elm(3, "cmd", "add", <<"plus">>, "", 1), Elm(4, "flag", "beta", <<"b">>, "str", 3),
              Elm(5, "arg", "p", <<>>, "str", 3), Elm(6, "cmd", "rm", <<>>, "", 1),
              Elm(7, "flag", "tone", <<>>, "bool", 0), Elm(8, "arg", "q", <<>>, "list", 0), Elm(9, "cmd", "fo", <<>>, "", 0) >>,
   n |-> 6, spare |-> <<7, 8, 9>>, subs |-> <<6>>,
   argvs |-> <<<<"-a", "plus", "--beta", "u", "w">>, <<"zz", "u">>, <<"add", "--alpha", "-b", "u">>, <<"add">>, <<>>, <<"--alpha">>,
              <<"-a", "add", "u">>, <<"add", "--zz">>, <<"rm">>, <<"fo", "--tone">>>>]
Nest ==
  [els |-> << Elm(1, "cmd", "app", <<>>, "", 0), Elm(2, "flag", "alpha", <<>>, "list", 1), Elm(3, "flag", "x", <<>>, "bool", 1),
              Elm(4, "cmd", "add", <<>>, "", 1), Elm(5, "flag", "alpha", <<>>, "str", 4),
              Elm(6, "cmd", "ls", <<"dir">>, "", 4), Elm(7, "arg", "p", <<>>, "list", 6),
              Elm(8, "flag", "tone", <<>>, "bool", 0), Elm(9, "arg", "q", <<>>, "list", 0), Elm(10, "cmd", "fo", <<>>, "", 0) >>,
   n |-> 7, spare |-> <<8, 9, 10>>, subs |-> <<6>>,
   argvs |-> <<<<"-x", "add", "--alpha", "w", "ls", "-x", "u">>, <<"add", "zz">>, <<"add", "u", "ls">>,
              <<"--alpha", "u", "add", "--alpha", "w", "dir", "--alpha", "0", "u">>, <<"add">>, <<"add", "ls">>, <<"add", "ls", "--zz">>, <<"ls">>>>]
Trees == {Flat, Tree, Nest}

S(op) == <<op>>
op1(o) == [o |-> o]
Ts == {"init", "before", "action", "after"}
Ax(t, x) == [o |-> "at", t |-> t, x |-> x, via |-> 0]
Av(t, x, v) == [o |-> "at", t |-> t, x |-> x, via |-> v]
Setup(t, opt) == [o |-> "setup", parts |-> <<[t |-> t, x |-> Log("s1")]>>, opt |-> opt]
Setup2(t, u, opt) == [o |-> "setup", parts |-> <<[t |-> t, x |-> Log("s1")], [t |-> u, x |-> Log("s2")]>>, opt |-> opt]
Hook(t, pat, x) == [o |-> "hook", t |-> t, pat |-> pat, x |-> x]
Up(x) == [o |-> "up", x |-> x]
Err == [o |-> "err", id |-> "bad"]
Nf(id, ret) == [o |-> "nf", id |-> id, ret |-> ret]
Pats == {<<"*">>, <<"-">>, <<"<>">>, <<"app">>, <<"add">>, <<"add", "*">>, <<"*", "-">>, <<"--alpha">>, <<"-alpha">>, <<"-m">>,
         <<"app", "add", "ls">>, <<"*", "<>">>, <<"app", "app">>, <<"app", "*", "<p>">>, <<"ls", "<p>">>, <<"app", "<p>">>}
Names == {"alpha", "p", "x"}

(* ops of a group for element i of a tree at a stage *)
Ops1(b, i, t) ==
  LET e == b.els[i]
      cmd == e.k = "cmd"
      Cmd(set) == IF cmd THEN set ELSE {}
      Opt(set) == IF cmd THEN {} ELSE set
      Init(set) == IF t = "init" THEN set ELSE {}
      ForOption(set) == IF cmd THEN set ELSE {Up(S(o)) : o \in set}
  IN
  CASE Group = "order" -> {Err}
    [] Group = "timing" ->
         {Ax(u, Log("s")) : u \in Ts} \cup {Av(u, S(Err), 1) : u \in Ts}
         \cup {Av(u, <<Ax(v, Log("s")), [o |-> "log", id |-> "s2"]>>, 2) : u \in Ts, v \in Ts}
         \cup {Setup(u, TRUE) : u \in Ts} \cup {Setup(u, FALSE) : u \in Ts}
         \cup {Setup2("init", "action", TRUE), Setup2("before", "after", FALSE), Setup2("before", "after", TRUE)}
         \cup Opt({Ax("val", Log("s")), Ax("impl", Log("s")), Ax("impl", S(Ax("action", Log("s"))))})
         \cup Init({Up(S(Ax(u, Log("s")))) : u \in Ts})
    [] Group = "hooks" ->
         ForOption({Hook(u, p, Log("s")) : u \in {"init", "before", "after"}, p \in Pats})
         \cup ForOption({Hook(u, p, S(Err)) : u \in {"before", "after"}, p \in {<<"*">>, <<"-">>}})
         \cup Init(ForOption({Hook("init", p, S(Ax(u, Log("s")))) : u \in Ts, p \in {<<"*">>, <<"-">>, <<"<>">>}}))
         \cup Init(ForOption({Hook("before", p, S(Ax(u, Log("s")))) : u \in {"action", "after"}, p \in {<<"*">>, <<"-">>}}))
    [] Group = "dispatch" ->
         LET one == {Nf("h1", r) : r \in {"nil", "skip", "err", "default"}}
                    \cup {[o |-> "nf", id |-> "h1", ret |-> "implicit", name |-> n] : n \in {"rm", "ls", "zz"}}
                    \cup {[o |-> "nf", id |-> "h1", ret |-> "cmd", el |-> b.subs[k]] : k \in 1..Len(b.subs)}
         IN  Cmd(one)
    [] Group = "dyn" ->
         ForOption({[o |-> "addf", el |-> b.spare[1]], [o |-> "adda", el |-> b.spare[2]], [o |-> "addc", el |-> b.spare[3]],
                    [o |-> "rmf", name |-> "alpha"], [o |-> "rmf", name |-> "m"], [o |-> "rma", name |-> "p"], [o |-> "rmc", name |-> "add"],
                    [o |-> "rmc", name |-> "rm"]})
         \cup {[o |-> "addf", el |-> b.spare[1]], [o |-> "adda", el |-> b.spare[2]], [o |-> "addc", el |-> b.spare[3]],
               [o |-> "rmf", name |-> "alpha"], [o |-> "rma", name |-> "p"], [o |-> "rmc", name |-> "ls"]}
         \cup Init({[o |-> "alias", name |-> "k"], [o |-> "alias", name |-> "tone"], [o |-> "rmalias", name |-> "a"]})
         \cup (IF t = "init" /\ i > 1
               THEN {[o |-> "name", name |-> IF cmd THEN "fo" ELSE IF e.k = "flag" THEN "tone" ELSE "t"]}
                    \cup ForOption({Hook("init", p, S([o |-> "addf", el |-> b.spare[1]])) : p \in {<<"*">>, <<"rm">>}})
                    \cup {[o |-> "name", name |-> IF cmd THEN "rm" ELSE IF e.k = "flag" THEN "alpha" ELSE "q"]}
               ELSE {})
    [] Group = "scope" ->
         {[o |-> "data", key |-> "k1", v |-> "d"]}
         \cup Init(ForOption({Hook("before", p, S([o |-> "data", key |-> "k1", v |-> "h"])) : p \in {<<"*">>, <<"-">>}}))
    [] Group = "valid" ->
         Init(Opt({[o |-> "enum", vs |-> <<"u">>], [o |-> "enum", vs |-> <<"u", "w", "">>],
                   [o |-> "mutex", names |-> <<"m">>], [o |-> "mutex", names |-> <<"x", "alpha">>], [o |-> "mutex", names |-> <<"p", "beta">>]}
                  \cup (IF e.kind \in {"str", "bool"} THEN {[o |-> "implv", v |-> "true"]} ELSE {})
                  \cup (IF e.k = "flag" /\ e.kind # "list"
                        THEN {[o |-> "implies", name |-> n, v |-> "true"] : n \in {"m", "alpha", "x", "beta"}} ELSE {})))

OptionNames(e) == CASE e.k = "cmd" -> {"Exits", "ImpliedAction", "DisallowFlagsAfterArgs", "SkipFlagParsing", "RightToLeft"}
                    [] e.k = "flag" -> {"Required", "NonPersistent", "Exits", "Trigger", "ImpliedAction"}
                    [] e.k = "arg" -> {"Required", "Exits", "Trigger", "ImpliedAction"}
Field(t) == CASE t = "init" -> "uses" [] t = "before" -> "before" [] t = "action" -> "action" [] t = "after" -> "after"
Put(b, i, t, x) == [b EXCEPT !.els[i][Field(t)] = x \o @]
PutLast(b, i, t, x) == [b EXCEPT !.els[i][Field(t)] = @ \o x]
WithOption(b, i, o) == [b EXCEPT !.els[i].opts = <<o>>]

(* in the group "scope" every handler looks a name up *)
Looking(b, nm) ==
  [b EXCEPT !.els = [i \in DOMAIN @ |->
     LET L(x) == <<[o |-> "look", id |-> x[1].id, name |-> nm]>>
     IN  [@[i] EXCEPT !.uses = L(@), !.before = L(@), !.action = L(@), !.after = L(@)]]]

Made(b, av) == [els |-> b.els, argv |-> av]
\* quick: the command lines that matter most to the group come first
Few == CASE Group \in {"timing", "hooks"} -> 2 [] Group = "dispatch" -> 3 [] Group = "valid" -> 4 [] OTHER -> 100
Lines(b) == IF Deep THEN Range(b.argvs) ELSE {b.argvs[k] : k \in 1..Min2(Few, Len(b.argvs))}
Go(b) == \E av \in Lines(b) : LifeInit(Made(b, av))

(* The choices are made one after the other, so that TLC never has to sort a set of scenarios. *)
Place1(b, K(_)) == \E i \in 1..b.n, t \in Ts : \E o \in Ops1(b, i, t) : K(Put(b, i, t, <<o>>))
Option1(b, K(_)) == \E i \in 1..b.n : \E o \in OptionNames(b.els[i]) : K(WithOption(b, i, o))
PlaceInit(b, K(_)) == \E i \in 1..b.n : \E o \in Ops1(b, i, "init") : K(Put(b, i, "init", <<o>>))
PlaceLast(b, K(_)) == \E i \in 1..b.n : \E o \in Ops1(b, i, "init") : K(PutLast(b, i, "init", <<[o EXCEPT !.id = "h2"]>>))
PlaceLast2(b, K(_)) == \E i \in 1..b.n : \E o \in Ops1(b, i, "init") : K(PutLast(b, i, "init", <<o>>))
Some1(b, K(_)) == \E i \in 1..b.n : \E o \in OptionNames(b.els[i]) \cap {"Required", "Trigger", "ImpliedAction"} : K(WithOption(b, i, o))

GoPlaced(b) == Place1(b, Go)
GoOptioned(b) == Option1(b, Go)
GoSome(b) == Some1(b, Go)
GoLast(b) == PlaceLast(b, Go)
GoLast2(b) == PlaceLast2(b, Go)

GenBase(b) ==
  CASE Group = "order" -> Go(b) \/ Place1(b, Go) \/ Option1(b, Go) \/ (Deep /\ Option1(b, GoPlaced))
    [] Group = "timing" -> Place1(b, Go) \/ (Deep /\ Place1(b, GoOptioned))
    [] Group \in {"hooks", "dyn"} -> Place1(b, Go) \/ (Deep /\ PlaceInit(b, GoLast2))
    [] Group = "dispatch" -> Go(b) \/ Place1(b, Go) \/ PlaceInit(b, GoLast)
    [] Group = "scope" ->
         \/ \E nm \in Names \cup {"a"} : Go(Looking(b, nm))
         \/ Option1(Looking(b, "alpha"), Go)
         \/ Place1(Looking(b, "k1"), Go)
         \/ Deep /\ Place1(Looking(b, "k1"), GoPlaced)
    [] Group = "valid" -> Place1(b, Go) \/ Option1(b, Go) \/ Place1(b, GoSome) \/ (Deep /\ Place1(b, GoPlaced))
GenInit == \E b \in Trees : GenBase(b)
Emit == /\ MarkDone
        /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
