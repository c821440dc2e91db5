-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expressions (extensions/expr).  The tokens of an expression argument    *)
(* are split into uses of operators, each with its own operands (the       *)
(* operands are bound by the same binder as the arguments of a command,    *)
(* Binder.tla).  Evaluating an item runs the uses in order: a use hands    *)
(* items on by yielding them, so that evaluation is a depth-first walk,    *)
(* here with an explicit stack of frames.                                  *)
(*                                                                         *)
(* Scenario: [place, ops: Seq([name, aliases, args: Seq([name, cnt]), ev,  *)
(*   hooks]), expr: Seq(STRING), custom: Seq([at, id, ev]),                *)
(*   batches: Seq(Seq(STRING)), form]                                      *)
(***************************************************************************)
EXTENDS Binder
CONSTANT Scen(_)

VARIABLES sid, sc, pc, rest, uses, err, what, log, batch, item, stack, ret
vars == <<sid, sc, pc, rest, uses, err, what, log, batch, item, stack, ret>>

ExprInit(i) ==
  /\ sid = i /\ sc = Scen(i)
  /\ pc = "split" /\ rest = sc.expr /\ uses = <<>> /\ err = "ok" /\ what = ""
  /\ log = [j \in 1..Len(SelectSeq(sc.ops, LAMBDA o : o.hooks)) |->
              <<"before", SelectSeq(sc.ops, LAMBDA o : o.hooks)[j].name>>]
  /\ batch = 1 /\ item = 1 /\ stack = <<>> /\ ret = ""

------------------------------------------------------------------------------
(* Splitting.  A token names an operator when it is a dash followed by the    *)
(* name or an alias.                                                          *)
OpOf(tok) ==
  IF Len(tok) < 2 THEN 0
  ELSE IF Ch(tok, 1) # "-" THEN 0
  ELSE LET n == Drop(tok, 1) IN FirstIdx(sc.ops, LAMBDA o : o.name = n \/ n \in Range(o.aliases))

Cnt(c) == IF c = "int" THEN "n1" ELSE c
Operands(o, toks) ==
  BindAll([flags |-> <<>>, args |-> [j \in 1..Len(o.args) |-> [name |-> o.args[j].name, cnt |-> Cnt(o.args[j].cnt)]],
           byname |-> <<>>,      \* operands are positional only
           rtl |-> FALSE, dfa |-> FALSE, sfp |-> FALSE, argv |-> toks])

(* the value of operand j, as a sequence of texts *)
Given(b, j) == FlattenSeq([k \in 1..Len(OccOf(b, {"arg"}, j)) |-> OccOf(b, {"arg"}, j)[k].vals])
Scalar(cnt) == cnt \in {"str", "o1", "int"}
ValueOf(cnt, given) ==
  IF cnt = "exec" THEN given
  ELSE IF ~Scalar(cnt) THEN SelectSeq(given, LAMBDA v : v # "")   \* (a list splits its texts at commas)
  ELSE IF given = <<>> THEN <<IF cnt = "int" THEN "0" ELSE "">>
  ELSE <<given[Len(given)]>>
Use(i, b) ==
  [op |-> i, id |-> sc.ops[i].name, ev |-> sc.ops[i].ev,
   vals |-> [j \in 1..Len(sc.ops[i].args) |-> ValueOf(sc.ops[i].args[j].cnt, Given(b, j))]]

Wrong(code, w) == err' = code /\ what' = w /\ pc' = "done"
Same1 == UNCHANGED <<sid, sc, log, batch, item, stack, ret>>

(* one use: the operator and the operands that follow it *)
Split ==
  LET i == OpOf(Head(rest))
      b == Operands(sc.ops[i], Tail(rest))
      here == b.pc = "stop" /\ b.err = "UnknownOption"    \* where the next use begins
      left == IF here THEN <<b.cur>> \o b.rest ELSE <<>>
      own == IF here THEN Operands(sc.ops[i], TakeN(Tail(rest), Len(rest) - 1 - Len(left))) ELSE b
  IN
  /\ pc = "split" /\ rest # <<>> /\ Same1
  /\ IF i = 0 THEN Wrong("UnknownExpr", Head(rest)) /\ UNCHANGED <<rest, uses>>
     ELSE IF own.err = "UnexpectedArgument"
     THEN Wrong("ArgsMustPrecedeExprs", own.cur) /\ UNCHANGED <<rest, uses>>
     ELSE IF own.err # "ok" THEN Wrong(own.err, "") /\ UNCHANGED <<rest, uses>>
     ELSE /\ rest' = left /\ uses' = Append(uses, Use(i, own)) /\ UNCHANGED <<pc, err, what>>

BadInt(u) ==
  \E j \in 1..Len(u.vals) : sc.ops[u.op].args[j].cnt = "int" /\ ~IntText(u.vals[j][1])

(* Operands are converted when all of them are known; then the program adds   *)
(* its own steps before and after.                                            *)
Custom(at) == SelectSeq(sc.custom, LAMBDA c : c.at = at)
Own(c) == [op |-> 0, id |-> c.id, ev |-> c.ev, vals |-> <<>>]
Bound ==
  /\ pc = "split" /\ rest = <<>>
  /\ UNCHANGED <<sid, sc, rest, log, batch, item, stack, ret, what>>
  /\ IF \E k \in 1..Len(uses) : BadInt(uses[k]) THEN err' = "other" /\ pc' = "done" /\ UNCHANGED uses
     ELSE /\ pc' = "eval" /\ UNCHANGED err
          /\ uses' = [k \in 1..Len(Custom("pre")) |-> Own(Custom("pre")[Len(Custom("pre")) + 1 - k])]
                     \o uses \o [k \in 1..Len(Custom("post")) |-> Own(Custom("post")[k])]

------------------------------------------------------------------------------
(* Evaluating.  The behaviour of a use is a little program of micro-steps:    *)
(* "see": it looks at the item and at its operands; "yield": it hands an      *)
(* item on, and stops when that fails; "try": the same, whatever happens      *)
(* (its result is then in `keep`); "keep": returns the result of "try";       *)
(* "fail": it fails.                                                          *)
See(w) == [m |-> "see", x |-> w]
Blind == [m |-> "blind", x |-> ""]
Yield(x) == [m |-> "yield", x |-> x]
Shown(u) ==
  IF u.op = 0 THEN <<>>
  ELSE FlattenSeq([j \in 1..Len(u.vals) |-> <<"/" \o sc.ops[u.op].args[j].name>> \o u.vals[j]])
Program(u, v) ==
  LET k == u.ev.k IN
  CASE k = "pass"     -> <<See("<"), Yield(v)>>
    [] k = "bpass"    -> <<Blind, Yield(v)>>
    [] k = "drop"     -> <<See("<")>>
    [] k = "err"      -> <<See("<"), [m |-> "fail", x |-> ""]>>
    [] k = "berr"     -> <<Blind, [m |-> "fail", x |-> ""]>>
    [] k = "not"      -> IF v # u.ev.x THEN <<See("<"), Yield(v)>> ELSE <<See("<")>>
    [] k = "bnot"     -> IF v # u.ev.x THEN <<Blind, Yield(v)>> ELSE <<Blind>>
    [] k = "dup"      -> <<See("<"), Yield(v), See("="), Yield(v)>>
    [] k = "around"   -> <<See("<"), [m |-> "try", x |-> v], See(">"), [m |-> "keep", x |-> ""]>>
    [] k = "errafter" -> <<See("<"), Yield(v), See(">"), [m |-> "fail", x |-> ""]>>
    [] k = "swallow"  -> <<See("<"), [m |-> "try", x |-> v], See(">")>>
    [] k = "map"      -> <<See("<"), Yield(v \o u.ev.x)>>
    [] k = "each"     -> <<See("<")>> \o [j \in 1..Len(Shown(u)) |-> Yield(v \o Shown(u)[j])] \o <<See(">")>>
    [] k = "true"     -> <<Yield(v)>>
    [] k = "false"    -> <<>>
    [] k = "errval"   -> <<[m |-> "fail", x |-> ""]>>

Front(s) == SubSeq(s, 1, Len(s) - 1)
Frame(i, v) == [i |-> i, v |-> v, todo |-> Program(uses[i], v), keep |-> "ok"]
Same2 == UNCHANGED <<sid, sc, rest, uses, err, what>>
Busy == pc = "eval" /\ stack # <<>>
Top == stack[Len(stack)]
Lower(f) == [stack EXCEPT ![Len(stack)] = f]

(* Without operators nothing evaluates the items *)
Feed ==
  /\ pc = "eval" /\ stack = <<>> /\ ret = "" /\ batch <= Len(sc.batches) /\ Same2
  /\ LET items == sc.batches[batch] IN
     IF item > Len(items)
     THEN /\ log' = Append(log, <<"end", "ok">>) /\ batch' = batch + 1 /\ item' = 1 /\ UNCHANGED <<pc, stack, ret>>
     ELSE IF uses = <<>> THEN item' = item + 1 /\ UNCHANGED <<pc, stack, log, batch, ret>>
     ELSE stack' = <<Frame(1, items[item])>> /\ item' = item + 1 /\ UNCHANGED <<pc, log, batch, ret>>

(* the result of an item: a failure ends the evaluation *)
Fed ==
  /\ pc = "eval" /\ stack = <<>> /\ ret # "" /\ Same2
  /\ ret' = "" /\ UNCHANGED <<pc, stack>>
  /\ IF ret = "ok" THEN UNCHANGED <<log, batch, item>>
     ELSE log' = Append(log, <<"end", ret>>) /\ batch' = batch + 1 /\ item' = 1

Micro ==
  /\ Busy /\ ret = "" /\ Same2 /\ UNCHANGED <<pc, batch, item>>
  /\ LET u == uses[Top.i] IN
     IF Top.todo = <<>> THEN stack' = Front(stack) /\ ret' = "ok" /\ UNCHANGED log
     ELSE LET a == Head(Top.todo) IN
       CASE a.m = "see" -> /\ log' = Append(log, <<a.x, u.id, Top.v>> \o Shown(u))
                           /\ stack' = Lower([Top EXCEPT !.todo = Tail(@)]) /\ UNCHANGED ret
         [] a.m = "blind" -> /\ log' = Append(log, <<"<", u.id, Top.v>>)
                             /\ stack' = Lower([Top EXCEPT !.todo = Tail(@)]) /\ UNCHANGED ret
         [] a.m = "fail" -> stack' = Front(stack) /\ ret' = "E" \o u.id /\ UNCHANGED log
         [] a.m = "keep" -> stack' = Front(stack) /\ ret' = Top.keep /\ UNCHANGED log
         [] OTHER -> \* yield: to the next use; the last use's items are dropped
              IF Top.i = Len(uses) THEN ret' = "ok" /\ UNCHANGED <<log, stack>>
              ELSE stack' = Append(stack, Frame(Top.i + 1, a.x)) /\ UNCHANGED <<log, ret>>

(* a yield comes back *)
Back ==
  /\ Busy /\ ret # "" /\ Same2 /\ UNCHANGED <<pc, batch, item, log>>
  /\ IF Head(Top.todo).m = "try"
     THEN ret' = "" /\ stack' = Lower([Top EXCEPT !.todo = Tail(@), !.keep = ret])
     ELSE IF ret = "ok" THEN ret' = "" /\ stack' = Lower([Top EXCEPT !.todo = Tail(@)])
     ELSE stack' = Front(stack) /\ UNCHANGED ret

Finished ==
  /\ pc = "eval" /\ stack = <<>> /\ ret = "" /\ batch > Len(sc.batches)
  /\ pc' = "done" /\ Same2 /\ UNCHANGED <<batch, item, stack, ret>>
  /\ LET h == SelectSeq(sc.ops, LAMBDA o : o.hooks) IN
     log' = log \o [j \in 1..Len(h) |-> <<"after", h[j].name>>]

Step == Split \/ Bound \/ Feed \/ Fed \/ Micro \/ Back \/ Finished
Done == pc = "done"

Files == CASE sc.place = "one" -> <<"f1">> [] sc.place = "list" -> <<"f1", "f2">> [] OTHER -> <<>>
Outcome ==
  IF err # "ok" THEN [code |-> err, what |-> what, walk |-> <<>>, files |-> <<>>, log |-> log]
  ELSE [code |-> "ok", what |-> "", files |-> Files, log |-> log,
        walk |-> [k \in 1..Len(uses) |-> IF uses[k].op = 0 THEN "custom" ELSE uses[k].id]]

------------------------------------------------------------------------------
(* Frames are uses one after the other; the item of a frame is what the use   *)
(* below it yielded; nothing is lost while splitting.                         *)
Safety ==
  /\ \A k \in 1..Len(stack) : stack[k].i = k
  /\ \A k \in 2..Len(stack) : stack[k-1].todo # <<>> /\ Head(stack[k-1].todo).m \in {"yield", "try"}
                              /\ Head(stack[k-1].todo).x = stack[k].v
  /\ pc = "split" => \E m \in 0..Len(sc.expr) : rest = Drop(sc.expr, m)
  /\ (pc = "eval" /\ err = "ok") => Len(SelectSeq(uses, LAMBDA u : u.op # 0)) <= Len(sc.expr)
  /\ err # "ok" => \A k \in 1..Len(log) : log[k][1] = "before"
=============================================================================
