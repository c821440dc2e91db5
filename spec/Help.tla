-------------------------------- MODULE Help --------------------------------
(***************************************************************************)
(* The help screen: which command it describes for each way of asking, and *)
(* what it lists: the usage line, flags and sub-commands by category and   *)
(* the flags of enclosing commands, without any that are hidden.           *)
(*                                                                         *)
(* Scenario: [els, via, at, toks, argv]                                    *)
(*   els: [k (cmd flag arg), up, name, aliases, opts, cat, help, kind,     *)
(*         act, text, ph], the root first; kind is the value type of a flag, or the *)
(*         count of an arg; act: the command has an Action; ph: the        *)
(*         placeholders in the help text of a flag, [n, pos], -1 for none  *)
(*   via: "flag": --help used in command `at`, followed by toks            *)
(*        "command": the root's help command, followed by toks             *)
(*        "none": command `at` is run                                      *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, at, todo, sec, lines
vars == <<sid, sc, pc, at, todo, sec, lines>>

N == Len(sc.els)
E(i) == sc.els[i]
Opt(i, o) == o \in Range(E(i).opts)
Own(i, k) == SelectSeq([j \in 1..N |-> j], LAMBDA j : E(j).up = i /\ E(j).k = k)
Subs(i) == Own(i, "cmd")
(* the name of --help and --version, and of the commands, of the root, which are like elements 0 and -1 *)
NameOf(i) == IF i = 0 THEN "help" ELSE IF i = -1 THEN "version" ELSE E(i).name
Alphabet == "_abcdefghijklmnopqrstuvwxyz"
RECURSIVE LessText(_, _)
LessText(a, b) ==
  IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN LessText(Drop(a, 1), Drop(b, 1))
  ELSE IndexOf(Alphabet, Ch(a, 1)) < IndexOf(Alphabet, Ch(b, 1))
RECURSIVE ByName(_)
ByName(s) == IF s = <<>> THEN <<>>
             ELSE LET m == CHOOSE x \in Range(s) : \A y \in Range(s) : x = y \/ LessText(NameOf(x), NameOf(y))
                  IN <<m>> \o ByName(SelectSeq(s, LAMBDA x : x # m))
InOrder(i, o, s) == IF Opt(i, o) THEN ByName(s) ELSE s
RECURSIVE Above(_), PathOf(_)
Above(i) == IF E(i).up = 0 THEN <<>> ELSE Append(Above(E(i).up), E(i).up)
PathOf(i) == IF E(i).up = 0 THEN <<E(i).name>> ELSE Append(PathOf(E(i).up), E(i).name)

(* An element is hidden when that was asked, or when its name starts with an underscore, unless
   it was asked to be visible or this is disabled for it or above *)
Hidden(i) ==
  \/ Opt(i, "Hidden")
  \/ /\ StartsWith(E(i).name, "_") /\ ~Opt(i, "Visible")
     /\ \A j \in Range(Append(Above(i), i)) : ~Opt(j, "DisableAutoVisibility")
Shown(s) == SelectSeq(s, LAMBDA i : ~Hidden(i))

HelpInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ sec = "" /\ lines = <<>>
  /\ at = IF Scen(id).via = "command" THEN 1 ELSE Scen(id).at
  /\ todo = Scen(id).toks
  /\ pc = IF Scen(id).via = "none" THEN "run" ELSE "find"

------------------------------------------------------------------------------
(* Which command *)
Named(i, n) == SelectSeq(Subs(i), LAMBDA j : E(j).name = n \/ n \in Range(E(j).aliases))
(* the root has these of its own, once it has sub-commands *)
BuiltIn(i, n) == i = 1 /\ Subs(1) # <<>> /\ n \in {"help", "h", "version"}
Find ==
  /\ pc = "find" /\ UNCHANGED <<sid, sc, sec, lines>>
  /\ IF todo = <<>> THEN pc' = "usage" /\ UNCHANGED <<at, todo>>
     ELSE IF sc.via = "flag" /\ StartsWith(Head(todo), "-") THEN todo' = Tail(todo) /\ UNCHANGED <<pc, at>>
     ELSE IF sc.via = "flag" /\ Subs(at) = <<>> THEN todo' = <<>> /\ UNCHANGED <<pc, at>>   \* operands of the command
     ELSE IF Named(at, Head(todo)) # <<>> THEN at' = Named(at, Head(todo))[1] /\ todo' = Tail(todo) /\ UNCHANGED pc
     ELSE pc' = "missing" /\ UNCHANGED <<at, todo>>
Run ==
  /\ pc = "run" /\ UNCHANGED <<sid, sc, at, todo, sec, lines>>
  /\ pc' = IF ~E(at).act /\ Subs(at) # <<>> THEN "usage" ELSE "ran"   \* groups of commands display their help

------------------------------------------------------------------------------
(* The usage line *)
Names(i) == <<E(i).name>> \o E(i).aliases
Longs(i) == SelectSeq(Names(i), LAMBDA n : Len(n) > 1)
Shorts(i) == SelectSeq(Names(i), LAMBDA n : Len(n) = 1)
UText(i) == "(" \o E(i).name \o " text)"   \* the UsageText, if it has one
Typed(i) == CASE E(i).kind = "string" -> "STRING" [] E(i).kind \in {"int", "uint", "float"} -> "NUMBER"
              [] E(i).kind = "duration" -> "DURATION" [] E(i).kind = "url" -> "URL" [] E(i).kind = "ip" -> "IP"
              [] E(i).kind = "regexp" -> "PATTERN" [] E(i).kind = "file" -> "FILE" [] E(i).kind = "files" -> "FILES"
              [] E(i).kind = "bigint" -> "VALUE"
              [] E(i).kind = "list" -> "VALUES" [] E(i).kind = "map" -> "NAME=VALUE"
(* placeholders name the values, in the order of their positions, each once *)
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN s ELSE <<Head(s)>> \o Once(SelectSeq(Tail(s), LAMBDA p : p.n # Head(s).n))
RECURSIVE ByPos(_)
ByPos(s) == IF s = <<>> THEN s
            ELSE LET m == CHOOSE n \in 1..Len(s) : \A o \in 1..Len(s) : s[n].pos < s[o].pos \/ (s[n].pos = s[o].pos /\ n <= o)
                 IN <<s[m]>> \o ByPos(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
Holders(i) == LET s == ByPos(Once(E(i).ph)) IN JoinStr([n \in 1..Len(s) |-> s[n].n], " ")
Holder(i) == IF E(i).text THEN UText(i) ELSE IF E(i).help /\ E(i).ph # <<>> THEN Holders(i)
             ELSE IF E(i).kind = "bool" THEN "" ELSE Typed(i)
Value(i) == (IF Holder(i) = "" THEN "" ELSE IF Longs(i) = <<>> THEN " " ELSE "=") \o Holder(i)
Primary(i) == IF Longs(i) = <<>> THEN "-" \o Shorts(i)[1] ELSE "--" \o Longs(i)[1]
Both(i) == JoinStr((IF Shorts(i) = <<>> THEN <<>> ELSE <<"-" \o Shorts(i)[1]>>)
                   \o (IF Longs(i) = <<>> THEN <<>> ELSE <<"--" \o Longs(i)[1]>>), ", ")
(* --help and --version of the root are like elements 0 and -1 *)
HelpText(i) == IF i = 0 THEN "Display this help screen then exit" ELSE IF i = -1 THEN "Print the build version then exit"
               ELSE IF E(i).help THEN "About " \o E(i).name \o JoinStr([n \in 1..Len(E(i).ph) |-> " with " \o E(i).ph[n].n], "") ELSE ""
Row(i) == IF i = 0 THEN "-h, --help" ELSE IF i = -1 THEN "--version" ELSE Both(i) \o Value(i)
Cat(i) == IF i < 1 THEN "" ELSE E(i).cat
Visible(i) == i < 1 \/ ~Hidden(i)
Flags(i) == InOrder(i, "SortedFlags", Own(i, "flag") \o (IF i = 1 THEN <<0, -1>> ELSE <<>>))
Each(s, Op(_)) == [n \in 1..Len(s) |-> Op(s[n])]
Plain(i) == i > 0 /\ Len(E(i).name) = 1 /\ E(i).kind = "bool"
Ends(i) == i < 1 \/ Opt(i, "Exits")
Prim(i) == IF i = 0 THEN "--help" ELSE IF i = -1 THEN "--version" ELSE Primary(i) \o Value(i)
Before1(c, d) == \* in the order of letters
  LET abc == "abcdefghijklmnopqrstuvwxyz" IN IndexOf(abc, c) < IndexOf(abc, d)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == CHOOSE x \in Range(s) : \A y \in Range(s) : x = y \/ Before1(x, y)
                  IN <<m>> \o Sorted(SelectSeq(s, LAMBDA x : x # m))
Letters(s) == JoinStr(Sorted(Each(s, LAMBDA i : Shorts(i)[1])), "")
(* A sub-command's name is an argument of the command that has it *)
ArgText(i) == IF i = 0 THEN "<command> [<args>]..." ELSE (IF E(i).text THEN UText(i) ELSE "<" \o E(i).name \o ">") \o (IF E(i).kind \in {"-1", "2"} THEN "..." ELSE "")
Optional(i) == i > 0 /\ E(i).kind \in {"0", "opt"}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)
Front(s) == SubSeq(s, 1, Len(s) - 1)
UsageLine(c) ==
  LET fs == SelectSeq(Flags(c), LAMBDA i : Visible(i))
      ends == SelectSeq(fs, LAMBDA i : Ends(i))
      rest == SelectSeq(fs, LAMBDA i : ~Ends(i))
      Req(i) == Opt(i, "Required")
      args == Shown(Own(c, "arg"))
      ltr == ~Opt(c, "RightToLeft")
      first == LET s == {n \in 1..Len(args) : Optional(args[n])} IN IF s = {} THEN Len(args) + 1 ELSE Min(s)
      all == args \o (IF Subs(c) = <<>> THEN <<>> ELSE <<0>>)   \* the sub-command's name is the last
      must == IF ltr THEN SelectSeq(all, LAMBDA i : ~Optional(i)) ELSE SubSeq(all, 1, IF first > Len(args) THEN Len(all) ELSE first - 1)
      may == IF ltr THEN SelectSeq(all, LAMBDA i : Optional(i)) ELSE SubSeq(all, Len(must) + 1, Len(all))
      p1 == SelectSeq(rest, LAMBDA i : Plain(i) /\ Req(i))
      p2 == SelectSeq(rest, LAMBDA i : Plain(i) /\ ~Req(i))
      o1 == SelectSeq(rest, LAMBDA i : ~Plain(i) /\ ~Req(i))
      o2 == SelectSeq(rest, LAMBDA i : ~Plain(i) /\ Req(i))
  IN IF E(c).text THEN JoinStr(Front(PathOf(c)) \o <<UText(c)>>, " ")
     ELSE JoinStr(
       PathOf(c)
       \o (IF ends = <<>> THEN <<>> ELSE <<"{" \o JoinStr(Each(ends, Prim), " | ") \o "}">>)
       \o (IF p1 = <<>> THEN <<>> ELSE <<"-" \o Letters(p1)>>)
       \o (IF p2 = <<>> THEN <<>> ELSE <<"[-" \o Letters(p2) \o "]">>)
       \o Each(o1, LAMBDA i : "[" \o Prim(i) \o "]")
       \o Each(o2, Prim)
       \o Each(must, ArgText)
       \o (IF may = <<>> THEN <<>>
           ELSE IF ltr THEN <<JoinStr(Each(may, LAMBDA i : "[" \o ArgText(i) \o "]"), "")>>
           \* from the right each is given only with those after it
           ELSE <<Repeat("[", Len(may)) \o JoinStr(Each(may, ArgText), "] ") \o "]">>), " ")

------------------------------------------------------------------------------
(* The lists, category by category *)
Cats == <<"", "Cat", "Other", "Zed">>   \* in order
Group(s, c) == SelectSeq(s, LAMBDA i : Cat(i) = c)
Used(s) == SelectSeq(Cats, LAMBDA c : Group(s, c) # <<>>)
Bare(s, c) == \A i \in Range(Group(s, c)) : HelpText(i) = ""   \* without any help text: only the names
Listing(s) ==
  LET grouped == Used(s) # <<"">> /\ s # <<>>
      Item(i) == [cat |-> Cat(i), row |-> Row(i), help |-> HelpText(i)]
      Rows(c) ==
        LET see == SelectSeq(Group(s, c), LAMBDA i : Visible(i)) IN
        IF see # <<>> /\ grouped /\ Bare(s, c)
        THEN << [cat |-> c, row |-> JoinStr(Each(see, LAMBDA i : "-" \o E(i).name), ", "), help |-> ""] >>
        ELSE Each(see, Item)
  IN FlattenSeq(Each(Cats, Rows))
CmdRow(i) == IF i = 0 THEN [cat |-> "", row |-> "help, h", help |-> "Display help for a command"]
             ELSE IF i = -1 THEN [cat |-> "", row |-> "version", help |-> "Print the build version then exit"]
             ELSE [cat |-> E(i).cat, row |-> JoinStr(Names(i), ", "), help |-> HelpText(i)]
Commands(c) ==
  LET s == InOrder(c, "SortedCommands", Shown(Subs(c)) \o (IF c = 1 /\ Subs(1) # <<>> THEN <<0, -1>> ELSE <<>>)) IN
  FlattenSeq(Each(Cats, LAMBDA k : Each(Group(s, k), CmdRow)))
RECURSIVE Global(_)
Global(c) == IF E(c).up = 0 THEN <<>> ELSE Global(E(c).up) \o SelectSeq(Flags(E(c).up), LAMBDA i : Visible(i))

Go(p, s, l) == pc' = p /\ sec' = s /\ lines' = lines \o l /\ UNCHANGED <<sid, sc, at, todo>>
In(s, rows) == Each(rows, LAMBDA r : [sec |-> s, cat |-> r.cat, row |-> r.row, help |-> r.help])
Usage == pc = "usage" /\ Go("flags", UsageLine(at), <<>>)
FlagList == pc = "flags" /\ Go("commands", sec, In("flags", Listing(Flags(at))))
CommandList == pc = "commands" /\ Go("global", sec, In("commands", Commands(at)))
GlobalList == pc = "global" /\ Go("shown", sec, In("global", Listing(Global(at))))
Step == Find \/ Run \/ Usage \/ FlagList \/ CommandList \/ GlobalList
Done == pc \in {"missing", "ran", "shown"}

Nothing == [usage |-> "", about |-> "", rows |-> <<>>]
Outcome ==
  CASE pc = "missing" -> [res |-> "missing " \o Head(todo), ran |-> "", usage |-> "", about |-> "", rows |-> <<>>]
    [] pc = "ran" -> [res |-> "ok", ran |-> (IF E(at).act THEN E(at).name ELSE ""), usage |-> "", about |-> "", rows |-> <<>>]
    [] pc = "shown" -> [res |-> (IF sc.via = "none" THEN "ok" ELSE "exit 0"), ran |-> "", usage |-> sec,
                        about |-> HelpText(at), rows |-> lines]
(* The help command names the commands above as they were named *)
Said == << E(1).name >> \o SubSeq(sc.toks, 1, Len(sc.toks) - 1)
SaidLine ==
  LET line == Outcome.usage
      real == JoinStr(Front(PathOf(at)), " ")
  IN IF Len(PathOf(at)) = 1 THEN line ELSE JoinStr(Said, " ") \o Drop(line, Len(real))
Agrees(obs) ==
  \/ obs = Outcome
  \/ pc = "shown" /\ sc.via = "command" /\ sc.toks # <<>> /\ obs = [Outcome EXCEPT !.usage = SaidLine]

------------------------------------------------------------------------------
(* What holds of the specification itself *)
Mentions(s) == SelectSeq(lines, LAMBDA l : l.row = s \/ StartsWith(l.row, s \o ",") \/ StartsWith(l.row, s \o "="))
Rows(s) == SelectSeq(lines, LAMBDA l : l.sec = s)
Safety ==
  pc = "shown" =>
    \* each sub-command is there once, and none that is hidden
    /\ Len(Rows("commands")) = Len(Shown(Subs(at))) + (IF at = 1 /\ Subs(1) # <<>> THEN 2 ELSE 0)
    /\ \A i \in Range(Shown(Subs(at))) : \E n \in 1..Len(lines) : lines[n] = [sec |-> "commands", cat |-> E(i).cat, row |-> CmdRow(i).row, help |-> HelpText(i)]
    \* no flag is listed twice
    /\ Len(Rows("flags")) =< Len(SelectSeq(Flags(at), LAMBDA i : Visible(i)))
    /\ Len(Rows("global")) =< Len(Global(at))
    \* every flag which has help text is there with it
    /\ \A i \in Range(Flags(at)) : Visible(i) /\ HelpText(i) # "" =>
         \E n \in 1..Len(lines) : lines[n] = [sec |-> "flags", cat |-> Cat(i), row |-> Row(i), help |-> HelpText(i)]
=============================================================================
