------------------------------- MODULE Binder -------------------------------
(***************************************************************************)
(* The token binder of joe-cli: one command with flags and positional      *)
(* arguments consumes its command line left to right.  The binder is a     *)
(* state machine given as a function: BStep maps a state to the next one,  *)
(* and each step is one decision about one token (or one character of a    *)
(* group of short flags).  Parse.tla runs it step by step and checks its   *)
(* invariants; other modules run it to the end with BindAll.               *)
(*                                                                         *)
(* Scenario: [flags: Seq([name, aliases, kind]), args: Seq([name, cnt]),   *)
(*            rtl, dfa, sfp: BOOLEAN, argv: Seq(STRING)]                   *)
(* `log` is the sequence of occurrences bound so far, each with the tokens *)
(* it consumed.                                                            *)
(***************************************************************************)
EXTENDS Str, TLC

(* Counters: how many values an option takes. *)
ArgCounter(cnt) ==
  CASE cnt = "str"  -> [k |-> "def", n |-> 0]
    [] cnt = "list" -> [k |-> "until", n |-> 0]
    [] cnt = "n0"   -> [k |-> "def", n |-> 0]
    [] cnt = "n1"   -> [k |-> "disc", n |-> 1]
    [] cnt = "n2"   -> [k |-> "disc", n |-> 2]
    [] cnt = "n3"   -> [k |-> "disc", n |-> 3]
    [] cnt = "m1"   -> [k |-> "all", n |-> 0]
    [] cnt = "m7"   -> [k |-> "all", n |-> 0]
    [] cnt = "m2"   -> [k |-> "until", n |-> 0]
    [] cnt = "m3"   -> [k |-> "except", n |-> 0]
    [] cnt = "o1"   -> [k |-> "match", n |-> 0]
    [] cnt = "exec" -> [k |-> "term", n |-> 0]
    [] cnt = "nv"   -> [k |-> "pair", n |-> 0]
    [] OTHER        -> [k |-> "def", n |-> 0]

FlagCounter(kind) ==
  CASE kind = "bool" -> [k |-> "disc", n |-> 0]
    [] kind = "list" -> [k |-> "until", n |-> 0]
    [] kind = "opt"  -> [k |-> "def", n |-> 0]
    [] kind = "exec" -> [k |-> "term", n |-> 0]
    [] kind = "nv"   -> [k |-> "pair", n |-> 0]
    [] OTHER         -> [k |-> "req", n |-> 0]

(* "-" is a value; anything else beginning with a dash may be a flag *)
LooksLikeFlag(tok) == Len(tok) > 0 /\ tok # "-" /\ Ch(tok, 1) = "-"

(* What counter c says to token tok: "ok" takes it, "end" moves on to the   *)
(* next argument, "flag" refuses it because it looks like a flag.           *)
Verdict(c, tok, maybeFlag) ==
  LET fl == maybeFlag /\ LooksLikeFlag(tok) IN
  CASE c.k = "disc"   -> IF c.n = 0 THEN "end" ELSE IF fl THEN "flag" ELSE "ok"
    [] c.k = "def"    -> IF c.n > 0 THEN "end" ELSE IF fl THEN "flag" ELSE "ok"
    [] c.k = "req"    -> IF c.n > 0 THEN "end" ELSE "ok"
    [] c.k = "all"    -> "ok"
    [] c.k = "until"  -> IF fl THEN "end" ELSE "ok"
    [] c.k = "except" -> IF fl THEN "flag" ELSE "ok"
    [] c.k = "match"  -> IF StartsWith(tok, "p") /\ c.n < 1 THEN "ok" ELSE "end"
    [] c.k = "term"   -> IF c.n > 0 THEN "end" ELSE "ok"     \* up to `;' or `+'
    [] c.k = "pair"   -> IF c.n > 1 THEN "end" ELSE "ok"     \* a name and its value, in one token or in two

After(c, tok) ==   \* counter after it took a token
  CASE c.k = "disc" -> [c EXCEPT !.n = @ - 1]
    [] c.k \in {"def", "req", "match"} -> [c EXCEPT !.n = @ + 1]
    [] c.k = "term" -> [c EXCEPT !.n = IF tok \in {";", "+"} THEN 1 ELSE 0]
    [] c.k = "pair" -> [c EXCEPT !.n = IF c.n = 0 /\ IndexOf(tok, "=") # 0 THEN 2 ELSE c.n + 1]
    [] OTHER -> c

Satisfied(c) == CASE c.k = "disc" -> c.n = 0 [] c.k \in {"req", "term", "pair"} -> c.n > 0 [] OTHER -> TRUE
\* the error of a counter that is left unsatisfied (a value's own counter has its own error)
Short1(c, named) == IF c.k \notin {"term", "pair"} THEN "ExpectedArgument" ELSE IF named THEN "InvalidArgument" ELSE "other"
FirstShort(cs, from, to) == LET bad == {i \in from..to : ~Satisfied(cs[i])} IN
                            IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

------------------------------------------------------------------------------
(* Names.  Options and arguments share one table of names, so that an         *)
(* argument can also be given by name as if it were a flag; a name comes      *)
(* before an alias.  Result: index of a flag, minus the index of an argument, *)
(* or 0.                                                                      *)
Named(s, n) ==
  LET a(m) == FirstIdx(s.byname, LAMBDA x : x.name = m)
      f(m) == FirstIdx(s.flags, LAMBDA x : x.name = m)
      ByName(m) == IF a(m) # 0 THEN -a(m) ELSE f(m)
      l == FirstIdx(s.flags, LAMBDA x : n \in Range(x.aliases))
  IN  IF ByName(n) # 0 THEN ByName(n) ELSE IF l # 0 THEN ByName(s.flags[l].name) ELSE 0
What(f) == IF f < 0 THEN "named" ELSE "flag"
Abs(f) == IF f < 0 THEN -f ELSE f
KindOf(s, f) == IF f < 0 THEN "arg" ELSE s.flags[f].kind
CounterOf(s, f) == IF f < 0 THEN ArgCounter(s.byname[-f].cnt) ELSE FlagCounter(s.flags[f].kind)

(* Right-to-left binding: how many leading arguments are skipped.            *)
(* i: argument being considered, right to left; result: number skipped       *)
RECURSIVE RtlSkip(_, _, _)
RtlSkip(cs, i, count) ==
  LET c == count - (IF cs[i].k = "disc" THEN cs[i].n ELSE 1)
  IN  IF i = 1 \/ c <= 0 THEN i - 1 ELSE RtlSkip(cs, i - 1, c)

------------------------------------------------------------------------------
NoPend == [flag |-> 0, used |-> "", vals |-> <<>>, c |-> [k |-> "all", n |-> 0], toks |-> <<>>, next |-> ""]
Tokens(s) == (IF s.sfp THEN <<"--">> ELSE <<>>) \o s.argv
Counters(s) == [i \in 1..Len(s.args) |-> ArgCounter(s.args[i].cnt)]

(* Right-to-left binding needs the number of positional values first: the   *)
(* same machine runs with as many arguments as needed that take every value. *)
CountScen(s) == [s EXCEPT !.rtl = FALSE,
                          !.args = [i \in 1..(Len(s.argv) + 2) |-> [name |-> "#", cnt |-> "m3"]]]

BFresh(s, phase) ==
  [sc |-> s, phase |-> phase, rest |-> Tokens(s), cnts |-> Counters(s), idx |-> 1,
   pc |-> "outer", err |-> "ok", cur |-> "", mode |-> "mixed", anyArgs |-> FALSE,
   log |-> <<>>, pend |-> NoPend]

BInit(raw) ==
  LET t == raw @@ [byname |-> raw.args]
  IN  IF t.rtl THEN BFresh(CountScen(t), "count") ELSE BFresh(t, "run")

Fail(b, code) == [b EXCEPT !.err = code, !.pc = "stop"]

Entry(what, i, used, vals, toks) ==
  [what |-> what, i |-> i, used |-> used, vals |-> vals, toks |-> toks]

(* the count is known: start over with the leading arguments skipped *)
Restart(b) ==
  LET n == Len(SelectSeq(b.log, LAMBDA e : e.what = "arg"))
      s == [b.sc EXCEPT !.rtl = TRUE, !.args = b.sc.byname]
      f == BFresh(s, "run")
      skip == IF Len(f.cnts) > 0 THEN RtlSkip(f.cnts, Len(f.cnts), n) ELSE 0
      bad == FirstShort(f.cnts, 1, skip)
  IN  IF bad # 0 THEN Fail([f EXCEPT !.idx = skip + 1], Short1(f.cnts[bad], FALSE))
      ELSE [f EXCEPT !.idx = skip + 1]

(* Take the next token off the command line, outside of a run of arguments *)
Outer(b) ==
  LET cur == Head(b.rest) IN
  [b EXCEPT !.cur = cur, !.rest = Tail(@),
            !.pc = IF cur = "" \/ cur = "-" \/ Ch(cur, 1) # "-" \/ b.mode = "argsOnly"
                   THEN "arg" ELSE "flag"]

CurrentTakesAll(b) == b.idx <= Len(b.cnts) /\ b.cnts[b.idx].k = "all"

(* `--` among arguments: everything later is an argument, of the next one *)
ArgSeparator(b) ==
  IF b.idx <= Len(b.cnts) /\ ~Satisfied(b.cnts[b.idx])
  THEN Fail([b EXCEPT !.mode = "argsOnly"], Short1(b.cnts[b.idx], FALSE))
  ELSE [b EXCEPT !.mode = "argsOnly", !.idx = @ + 1, !.pc = "outer",
                 !.log = Append(@, Entry("sep", 0, "", <<>>, <<"--">>))]

(* a token is offered to the current argument *)
Arg(b) ==
  LET v == IF b.idx > Len(b.cnts) THEN "flag" ELSE Verdict(b.cnts[b.idx], b.cur, b.mode = "mixed") IN
  IF b.cur = "--" /\ ~CurrentTakesAll(b) THEN ArgSeparator(b)
  ELSE IF v = "end" THEN [b EXCEPT !.idx = @ + 1]      \* full: offer it to the next
  ELSE IF v = "flag"
  THEN \* no argument takes the token: it is a flag, or too many values were given
       IF b.mode = "mixed" /\ LooksLikeFlag(b.cur) THEN [b EXCEPT !.pc = "flag"]
       ELSE Fail(b, "UnexpectedArgument")
  ELSE LET t == [b EXCEPT !.cnts[b.idx] = After(@, b.cur),
                          !.log = Append(@, Entry("arg", b.idx, "<" \o b.sc.args[b.idx].name \o ">",
                                                  <<b.cur>>, <<b.cur>>))]
       IN  IF b.rest # <<>> THEN [t EXCEPT !.cur = Head(b.rest), !.rest = Tail(@), !.anyArgs = TRUE]
           ELSE IF Satisfied(t.cnts[b.idx]) THEN [t EXCEPT !.pc = "outer"]
           ELSE Fail(t, Short1(t.cnts[b.idx], TRUE))

(* `--` where a flag could be *)
Separator(b) ==
  [b EXCEPT !.mode = "argsOnly", !.pc = "outer",
            !.log = Append(@, Entry("sep", 0, "", <<>>, <<"--">>))]

Long(b) ==
  LET cur == b.cur
      e == IndexOf(cur, "=")
      used == IF e = 0 THEN cur ELSE TakeN(cur, e - 1)
      name == Drop(used, 2)
      f == Named(b.sc, name)
      u == IF Len(name) = 1 THEN "-" \o name ELSE "--" \o name
  IN  IF f = 0 THEN Fail(b, "UnknownOption")
      ELSE IF b.sc.dfa /\ b.anyArgs THEN Fail(b, "FlagUsedAfterArgs")
      ELSE IF e = 0
      THEN [b EXCEPT !.pc = "take",
                     !.pend = [flag |-> f, used |-> u, vals |-> <<>>,
                               c |-> CounterOf(b.sc, f), toks |-> <<cur>>, next |-> ""]]
      ELSE [b EXCEPT !.pc = "outer",
                     !.log = Append(@, Entry(What(f), Abs(f), used, <<Drop(cur, e)>>, <<cur>>))]

(* a group of short flags; pend.next holds the characters still to be read *)
ShortStart(b) ==
  IF b.sc.dfa /\ b.anyArgs THEN Fail(b, "FlagUsedAfterArgs")
  ELSE [b EXCEPT !.pend.next = Drop(b.cur, 1), !.pend.toks = <<b.cur>>, !.pc = "short"]

Short(b) ==
  LET c == Ch(b.pend.next, 1)
      value == Drop(b.pend.next, 1)
      f == Named(b.sc, c)
      cnt == CounterOf(b.sc, f)
      One(v) == Entry(What(f), Abs(f), "-" \o c, <<v>>, b.pend.toks)
  IN
  IF f = 0 THEN Fail(b, "UnknownOption")
  ELSE IF value # ""
  THEN IF Verdict(cnt, value, FALSE) = "ok" /\ Satisfied(After(cnt, value))
       THEN [b EXCEPT !.log = Append(@, One(value)), !.pc = "outer"]   \* the rest of the token is the value
       ELSE IF Ch(value, 1) = "=" THEN Fail(b, "InvalidArgument")
       ELSE IF Verdict(cnt, value, FALSE) = "ok"
       THEN Fail(b, Short1(cnt, FALSE))   \* (an argument given by name that needs more values)
       ELSE [b EXCEPT !.log = Append(@, One("")),                      \* a Boolean flag: the group goes on
                      !.pend.next = value, !.pend.toks = <<>>]
  ELSE IF KindOf(b.sc, f) = "opt"
  THEN [b EXCEPT !.log = Append(@, One("")), !.pc = "outer"]  \* never takes the next token
  ELSE [b EXCEPT !.pc = "take", !.pend.flag = f, !.pend.used = "-" \o c, !.pend.vals = <<>>,
                 !.pend.c = cnt, !.pend.next = ""]

(* a flag's value is taken from the following tokens *)
Take(b) ==
  IF b.rest # <<>> /\ (IF b.rest = <<>> THEN FALSE ELSE Verdict(b.pend.c, Head(b.rest), TRUE) = "ok")
  THEN [b EXCEPT !.pend.vals = Append(@, Head(b.rest)), !.pend.toks = Append(@, Head(b.rest)),
                 !.pend.c = After(@, Head(b.rest)), !.rest = Tail(@)]
  ELSE IF Satisfied(b.pend.c)
  THEN [b EXCEPT !.pc = "outer",
                 !.log = Append(@, Entry(What(b.pend.flag), Abs(b.pend.flag), b.pend.used,
                       IF b.pend.vals = <<>> THEN <<"">> ELSE b.pend.vals, b.pend.toks))]
  ELSE Fail(b, Short1(b.pend.c, TRUE))

(* end of the command line *)
Finish(b) ==
  LET bad == FirstShort(b.cnts, b.idx, Len(b.cnts)) IN
  IF bad # 0 THEN Fail(b, Short1(b.cnts[bad], FALSE))
  ELSE [b EXCEPT !.pc = "convert"]

(* values are converted once the whole command line has been bound *)
BoolText(v) == v \in {"", "0", "1", "t", "f", "true", "false", "on", "off"}
IntText(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : Ch(v, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Convertible(kind, v) == CASE kind = "bool" -> BoolText(v) [] kind = "int" -> IntText(v) [] OTHER -> TRUE
Convert(b) ==
  IF \E i \in 1..Len(b.log) : b.log[i].what = "flag"
        /\ \E j \in 1..Len(b.log[i].vals) : ~Convertible(KindOf(b.sc, b.log[i].i), b.log[i].vals[j])
  THEN Fail(b, "other")
  ELSE [b EXCEPT !.pc = "stop"]

BStep(b) ==
  IF b.phase = "count" /\ b.pc \in {"stop", "convert"} THEN Restart(b)
  ELSE CASE b.pc = "outer" -> IF b.rest = <<>> THEN Finish(b) ELSE Outer(b)
         [] b.pc = "arg"   -> Arg(b)
         [] b.pc = "flag"  -> IF b.cur = "--" THEN Separator(b)
                              ELSE IF StartsWith(b.cur, "--") THEN Long(b) ELSE ShortStart(b)
         [] b.pc = "short" -> Short(b)
         [] b.pc = "take"  -> Take(b)
         [] b.pc = "convert" -> Convert(b)

BDone(b) == b.phase = "run" /\ b.pc = "stop"
RECURSIVE BRun(_)
BRun(b) == IF BDone(b) THEN b ELSE BRun(BStep(b))
BindAll(s) == BRun(BInit(s))

------------------------------------------------------------------------------
(* What the program can observe *)
OccOf(b, whats, i) == SelectSeq(b.log, LAMBDA e : e.what \in whats /\ e.i = i)
View1(name, es) ==
  LET bd == [k \in 1..Len(es) |-> <<es[k].used>> \o es[k].vals]
  IN [n |-> name, b |-> bd, r |-> FlattenSeq(bd),
      o |-> FlattenSeq([k \in 1..Len(es) |-> es[k].vals]),
      seen |-> Len(es) > 0, occ |-> Len(es)]
BOutcome(b) ==
  [code |-> b.err,
   binds |-> IF b.err # "ok" THEN <<>>
             ELSE [i \in 1..Len(b.sc.flags) |-> View1(b.sc.flags[i].name, OccOf(b, {"flag"}, i))]
                  \o [i \in 1..Len(b.sc.args) |-> View1(b.sc.args[i].name, OccOf(b, {"arg", "named"}, i))]]
=============================================================================
