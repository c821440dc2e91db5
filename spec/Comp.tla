-------------------------------- MODULE Comp --------------------------------
(***************************************************************************)
(* Completion of a partial command line.  The tokens before the incomplete *)
(* one are bound as usual (Binder.tla); what is offered depends on what    *)
(* would take one more token: an argument, a flag that waits for its       *)
(* value, the position of a flag, or the sub-command argument, which moves *)
(* on to the sub-command named by its first token.  Each step of the       *)
(* machine reaches one command further down.                               *)
(*                                                                         *)
(* Scenario: [mode, root: Cmd, argv, inc]                                  *)
(* Cmd: [name, aliases, hidden, flags, args, subs]                         *)
(***************************************************************************)
EXTENDS Binder
CONSTANT Scen(_)
VARIABLES sid, sc, pc, cmd, inh, toks, offer
vars == <<sid, sc, pc, cmd, inh, toks, offer>>

None == [k |-> "none", vals |-> <<>>]
Implicit(n, al) == [name |-> n, aliases |-> al, kind |-> "bool", hidden |-> FALSE, np |-> FALSE, req |-> FALSE, comp |-> None]
ImplicitCmd(n, al) == [name |-> n, aliases |-> al, hidden |-> FALSE, flags |-> <<>>, args |-> <<>>, subs |-> <<>>]
Root(c) ==
  [c EXCEPT !.flags = @ \o <<Implicit("help", <<"h">>), Implicit("version", <<>>)>>,
            !.subs = IF @ = <<>> THEN @ ELSE @ \o <<ImplicitCmd("help", <<"h">>), ImplicitCmd("version", <<>>)>>]

CompInit(i) ==
  /\ sid = i /\ sc = Scen(i) /\ pc = "walk"
  /\ cmd = Root(sc.root) /\ inh = <<>> /\ toks = sc.argv /\ offer = <<>>

------------------------------------------------------------------------------
Inc == sc.inc
Dash == StartsWith(Inc, "-")
(* a token that no program would see: an unknown flag, or a value *)
Probe == IF Dash THEN "--~~~" ELSE "~~~"
CommandArg == [name |-> "command", cnt |-> "m1", comp |-> None]
Args == cmd.args \o (IF cmd.subs = <<>> THEN <<>> ELSE <<CommandArg>>)
Flags == cmd.flags \o inh       \* its own flags come first
Bound == BindAll([flags |-> Flags, args |-> [j \in 1..Len(Args) |-> [name |-> Args[j].name, cnt |-> Args[j].cnt]],
                  rtl |-> FALSE, dfa |-> FALSE, sfp |-> FALSE, argv |-> Append(toks, Probe)])
Takers(b) == {k \in 1..Len(b.log) : b.log[k].toks # <<>> /\ b.log[k].toks[Len(b.log[k].toks)] = Probe}
Taker(b) == b.log[CHOOSE k \in Takers(b) : TRUE]
(* What takes the incomplete token *)
Where(b) ==
  IF Takers(b) = {} THEN IF Dash THEN "flags" ELSE IF b.err = "UnknownOption" THEN "lost" ELSE "nothing"
  ELSE IF Taker(b).what = "flag" THEN IF Dash THEN "lost" ELSE "value"
  ELSE IF Args[Taker(b).i] = CommandArg THEN "command" ELSE "arg"
Invoked(b) ==
  LET es == OccOf(b, {"arg", "named"}, Len(Args))
      v == FlattenSeq([k \in 1..Len(es) |-> es[k].vals])
  IN  SelectSeq(v, LAMBDA x : x # Probe)

------------------------------------------------------------------------------
Prefixed(ss) == SelectSeq(ss, LAMBDA v : StartsWith(v, Inc))
Items(comp, vals) ==
  CASE comp.k = "none" -> <<>>
    [] comp.k = "vals" -> vals
    [] comp.k = "file" -> <<"F:" \o Inc>>
    [] comp.k = "dir"  -> <<"D:" \o Inc>>
    [] comp.k = "func" -> <<Inc \o "!">>

(* The names of a flag that are shown: one short name and one long name *)
Dashed(n) == IF Len(n) = 1 THEN "-" \o n ELSE "--" \o n
First1(ss) == IF ss = <<>> THEN <<>> ELSE <<Dashed(ss[1])>>
Shown(f) ==
  LET ns == <<f.name>> \o f.aliases
  IN  First1(SelectSeq(ns, LAMBDA n : Len(n) = 1)) \o First1(SelectSeq(ns, LAMBDA n : Len(n) > 1))
Plain(n) == IF StartsWith(n, "--") THEN Drop(n, 2) ELSE Drop(n, 1)
(* the names by which flag i is really used here *)
Usable(i) ==
  SelectSeq(Shown(Flags[i]), LAMBDA n :
    Named([flags |-> Flags, byname |-> Args], Plain(n)) = i)
Offered == SelectSeq([i \in 1..Len(Flags) |-> [i |-> i, names |-> IF Flags[i].hidden THEN <<>> ELSE Usable(i)]],
                     LAMBDA o : o.names # <<>>)
(* the values of a flag, as part of the token that names it *)
RunIn(f) ==
  Items(f.comp, Prefixed(FlattenSeq([k \in 1..Len(Shown(f)) |->
    [j \in 1..Len(f.comp.vals) |->
       Shown(f)[k] \o (IF Len(Shown(f)[k]) = 2 THEN "" ELSE "=") \o f.comp.vals[j]]])))
HasValue(f, n) ==
  LET e == IndexOf(Inc, "=") IN
  \/ IF e = 0 THEN FALSE ELSE n = TakeN(Inc, e - 1)
  \/ Len(n) = 2 /\ Len(Inc) > 2 /\ StartsWith(Inc, n) /\ f.kind # "bool"
FlagItems ==
  LET names == FlattenSeq([k \in 1..Len(Offered) |-> Prefixed(Offered[k].names)])
      hits == SelectSeq(Offered, LAMBDA o : Prefixed(o.names) # <<>>)
      withv == SelectSeq(Offered, LAMBDA o : \E k \in 1..Len(o.names) : HasValue(Flags[o.i], o.names[k]))
  IN
  IF withv # <<>> THEN RunIn(Flags[withv[1].i])
  ELSE IF Len(hits) # 1 THEN names
  ELSE LET f == Flags[hits[1].i]
           last == names[Len(names)]
       IN  IF Inc \in Range(names) /\ f.comp.k # "none" THEN RunIn(f)
           ELSE IF Inc \in Range(names) THEN names
           ELSE IF f.kind # "bool" /\ Len(last) > 2 THEN <<last \o "=~">> ELSE <<last>>

SubItems ==
  LET vis == SelectSeq(cmd.subs, LAMBDA c : ~c.hidden)
  IN  Prefixed(FlattenSeq([k \in 1..Len(vis) |-> <<vis[k].name>> \o vis[k].aliases]))
SubOf(n) == FirstIdx(cmd.subs, LAMBDA c : c.name = n \/ n \in Range(c.aliases))

Same == UNCHANGED <<sid, sc>>
Offer(items) == offer' = items /\ pc' = "done" /\ UNCHANGED <<cmd, inh, toks>>
Walk ==
  LET b == Bound
      w == Where(b)
      inv == Invoked(b)
  IN
  /\ pc = "walk" /\ Same
  /\ CASE w = "flags"   -> Offer(FlagItems)
       [] w = "value"   -> LET f == Flags[Taker(b).i] IN Offer(Items(f.comp, Prefixed(f.comp.vals)))
       [] w = "arg"     -> LET a == Args[Taker(b).i] IN Offer(Items(a.comp, Prefixed(a.comp.vals)))
       [] w = "nothing" -> Offer(<<>>)
       [] w = "lost"    -> pc' = "unspecified" /\ UNCHANGED <<cmd, inh, toks, offer>>
       [] w = "command" ->
            IF inv = <<>> THEN Offer(SubItems)
            ELSE IF SubOf(inv[1]) = 0 THEN Offer(<<>>)
            ELSE /\ cmd' = cmd.subs[SubOf(inv[1])]
                 /\ inh' = SelectSeq(Flags, LAMBDA f : ~f.np)
                 /\ toks' = Tail(inv) /\ UNCHANGED <<pc, offer>>

Step == Walk
Done == pc \in {"done", "unspecified"}
Outcome == [bag |-> offer, res |-> "ran 0"]
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
Agrees(o) == pc = "unspecified" \/ (DOMAIN o = {"bag", "res"} /\ (IF DOMAIN o = {"bag", "res"} THEN o.res = "ran 0" /\ SameBag(o.bag, offer) ELSE FALSE))

(* nothing hidden is named, and nothing is offered twice *)
HiddenNames == {Dashed(n) : n \in UNION {Range(<<Flags[i].name>> \o Flags[i].aliases) : i \in {j \in 1..Len(Flags) : Flags[j].hidden}}}
Safety ==
  /\ \A x \in Range(offer) : Count(offer, x) = 1
  /\ \A x \in Range(offer) : StartsWith(x, Inc) \/ StartsWith(x, "F:") \/ StartsWith(x, "D:")
  /\ \E m \in 0..Len(sc.argv) : toks = Drop(sc.argv, m) \/ Len(toks) < Len(sc.argv)
=============================================================================
