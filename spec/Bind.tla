-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* Actions and evaluators bound to the values of flags and args: cli.Bind, *)
(* BindIndirect, BindContext and extensions/bind.                          *)
(*                                                                         *)
(* op "type": a flag is given the text v; the function of type ty, bound   *)
(*   by its name (or implicitly, if sub), is called with its value         *)
(* op "run": opts: sequence of [n, arg, lv, ty, uses, action]: flags and   *)
(*   args (in this order) of the app (lv 0) or of the sub-command s (lv 1),*)
(*   with a declared type or "", and the actions in Uses and Action        *)
(*   uses, action: those of the command that runs (s if sub, else the app) *)
(*   toks: [o, v, bare] how each option is given on the command line       *)
(*   ex: an expression operator with operands, args, whose evaluator is an *)
(*   act in uses or eval, and the operands of each time it is used         *)
(*   act: [id, k, n, ps, err]: k call action eval (of 1 to 3 parameters),  *)
(*     indirect redirect bind bindind bindctx (of one, noexact or exact);  *)
(*     n: the target of indirect, redirect, bindind; err: fails            *)
(*   parameter [b, n, i, ty, v]: b named index implicit noexact (exact     *)
(*     without a value) exact const ctx fail                               *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, val, boxed, calls, res
vars == <<sid, sc, pc, todo, val, boxed, calls, res>>
(* todo: the actions there are still to do: [h, a, env]: their holder (an   *)
(* option, "" or "-"), and the operands of an expression; val: text of each *)
(* option                                                                   *)

Name(i) == sc.opts[i].n
Idx(n) == CHOOSE i \in 1..Len(sc.opts) : sc.opts[i].n = n
IsOpt(n) == \E i \in 1..Len(sc.opts) : sc.opts[i].n = n
ArgNames == LET s == SelectSeq(sc.opts, LAMBDA o : o.arg) IN [i \in 1..Len(s) |-> s[i].n]
Operands == [i \in 1..Len(sc.ex.args) |-> sc.ex.args[i].n]
Expr == sc.ex.times # <<>>

(* The option that a parameter takes its value from: by name; by index among the args (the    *)
(* operands in an expression); implicitly, the option that has the action, or else the arg    *)
(* with the index of the parameter                                                            *)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "?"
Source(h, p, k) ==
  CASE p.b = "named" -> p.n
    [] p.b = "index" -> At(IF h = "" THEN ArgNames ELSE IF h = "-" THEN Operands ELSE <<>>, p.i + 1)
    [] p.b \in {"implicit", "noexact", "exact"} ->
         (IF h = "" THEN At(ArgNames, k) ELSE IF h = "-" THEN At(Operands, k) ELSE h)
    [] OTHER -> ""

Multi == {"call", "action", "eval"}
(* What the Uses of h say about the types of options: pairs <<option, type>> *)
Says(h, a) ==
  IF a.k \in Multi
  THEN {<<Source(h, a.ps[k], k), IF a.ps[k].b = "exact" THEN "bool" ELSE a.ps[k].ty>> :
          k \in {j \in 1..Len(a.ps) : a.ps[j].b \in {"named", "index", "implicit", "noexact", "exact"}}}
  ELSE {<<h, IF a.ps[1].b = "exact" THEN "bool" ELSE a.ps[1].ty>>}
       \cup (IF a.k = "indirect" THEN {<<a.n, "box">>} ELSE IF a.k = "redirect" THEN {<<a.n, a.ps[1].ty>>} ELSE {})
SaidBy(h, as) == UNION {Says(h, as[i]) : i \in 1..Len(as)}
Said == SaidBy("", sc.uses) \cup SaidBy("-", sc.ex.uses)
        \cup UNION {SaidBy(sc.opts[i].n, sc.opts[i].uses) : i \in 1..Len(sc.opts)}
(* The same in Action, which sets no type: the type it has to have *)
Needed == Said \cup SaidBy("", sc.action) \cup SaidBy("-", sc.ex.eval)
          \cup UNION {SaidBy(sc.opts[i].n, sc.opts[i].action) : i \in 1..Len(sc.opts)}
Type(n, decl) ==
  IF decl # "" THEN decl
  ELSE LET t == {x[2] : x \in {y \in Said : y[1] = n}} IN
       IF t = {} THEN "string" ELSE CHOOSE x \in t : TRUE
OptType(n) == Type(n, sc.opts[Idx(n)].ty)
OpType(n) == Type(n, (CHOOSE o \in Range(sc.ex.args) : o.n = n).ty)
TypeOf(n) == IF IsOpt(n) THEN OptType(n) ELSE IF n \in Range(Operands) THEN OpType(n) ELSE "?"
Targets == {a \in UNION {Range(sc.opts[i].uses) \cup Range(sc.opts[i].action) : i \in 1..Len(sc.opts)} : a.k \in {"indirect", "bindind"}}
(* Each parameter has the type of its source *)
Typed ==
  /\ \A x \in Needed : TypeOf(x[1]) = x[2]
  /\ \A x \in Said, y \in Said : x[1] = y[1] => x[2] = y[2]
  /\ \A a \in Targets : TypeOf(a.n) = "box"
  /\ \A i \in 1..Len(sc.opts) : sc.opts[i].lv = 0 /\ sc.sub =>   \* the app's flags do not name what the sub-command has
       \A a \in Range(sc.opts[i].uses) \cup Range(sc.opts[i].action) :
         \A n \in {a.n} \cup {Source(Name(i), a.ps[k], k) : k \in 1..Len(a.ps)} : IsOpt(n) => sc.opts[Idx(n)].lv = 0

IsNumber(s) == s \in {"0", "5", "7"}
Parses(t, v) == CASE t = "int" -> IsNumber(v) [] t = "bool" -> v \in {"true", "false"} [] OTHER -> TRUE
Zero(t) == CASE t = "int" -> "0" [] t = "bool" -> "false" [] OTHER -> ""
Comma(v) == FlattenSeq([i \in 1..Len(v) |-> <<IF Ch(v, i) = "," THEN "|" ELSE Ch(v, i)>>])
Shown(t, v) == IF t = "list" THEN JoinStr(Comma(v), "") ELSE v
Given(n) == SelectSeq(sc.toks, LAMBDA t : t.o = n)
Value(n) == LET t == OptType(n) g == Given(n) IN
            IF g = <<>> THEN Zero(t) ELSE IF g[1].bare THEN "true" ELSE Shown(t, g[1].v)

ParseError(lv) ==
  \/ \E i \in 1..Len(sc.toks) : sc.opts[Idx(sc.toks[i].o)].lv = lv /\ ~sc.toks[i].bare /\ ~Parses(OptType(sc.toks[i].o), sc.toks[i].v)
  \/ \E i \in 1..Len(sc.ex.times) : \E j \in 1..Len(Operands) : ~Parses(OpType(Operands[j]), sc.ex.times[i][j])
(* not said: a flag that needs a value and is given without, or an empty text for one that has none *)
Odd == \E i \in 1..Len(sc.toks) : LET t == sc.toks[i] IN
         (t.bare /\ OptType(t.o) # "bool") \/ (t.v = "" /\ ~t.bare /\ OptType(t.o) # "string")

Doing(h, as) == [i \in 1..Len(as) |-> [h |-> h, a |-> as[i], env |-> <<>>]]
(* Flags, args, and the command last; the sub-command reads its own flags and args once those *)
(* of the app have been acted upon                                                            *)
Of(lv) == FlattenSeq([i \in 1..Len(sc.opts) |->
     IF sc.opts[i].lv = lv /\ Given(Name(i)) # <<>> THEN Doing(Name(i), sc.opts[i].uses \o sc.opts[i].action) ELSE <<>>])
Order ==
  Of(0) \o (IF sc.sub THEN <<[h |-> "read", a |-> <<>>, env |-> <<>>]>> ELSE <<>>) \o Of(1)
  \o Doing("", sc.uses \o sc.action)
  \o FlattenSeq([i \in 1..Len(sc.ex.times) |->
       LET as == IF sc.ex.eval # <<>> THEN sc.ex.eval ELSE sc.ex.uses IN
       [j \in 1..(IF Len(as) > 0 THEN 1 ELSE 0) |-> [h |-> "-", a |-> as[1], env |-> sc.ex.times[i]]]])

BindInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ pc = IF Scen(id).op = "type" THEN "type" ELSE "start"
  /\ todo = <<>> /\ val = <<>> /\ boxed = "" /\ calls = <<>> /\ res = "ok"

TypeCase ==
  /\ pc = "type" /\ pc' = "done" /\ UNCHANGED <<sid, sc, todo, boxed, calls, res>>
  /\ val' = <<CASE sc.ty \in {"list", "namevalues"} -> JoinStr(Comma(sc.v), "") [] sc.ty = "bytes" -> "ab" [] OTHER -> sc.v>>

Start ==
  /\ pc = "start" /\ UNCHANGED <<sid, sc, boxed, calls>>
  /\ IF ~Typed \/ Odd THEN pc' = "unspecified" /\ UNCHANGED <<todo, val, res>>
     ELSE IF ParseError(0) THEN pc' = "done" /\ res' = "parse" /\ UNCHANGED <<todo, val>>
             ELSE /\ pc' = "run" /\ res' = "ok" /\ todo' = Order /\ val' = [i \in 1..Len(sc.opts) |-> IF sc.sub /\ sc.opts[i].lv = 1 THEN Zero(OptType(Name(i))) ELSE Value(Name(i))]

Get(n, env) == IF IsOpt(n) THEN val[Idx(n)] ELSE env[CHOOSE i \in 1..Len(Operands) : Operands[i] = n]
HolderName(h) == IF h = "" THEN (IF sc.sub THEN "s" ELSE "app") ELSE IF h = "-" THEN "e" ELSE h
Param(h, p, k, env) ==
  CASE p.b = "ctx" -> "context of " \o HolderName(h)
    [] p.b \in {"exact", "const"} -> p.v
    [] OTHER -> Get(Source(h, p, k), env)

(* each is asked for its value, once and in order, up to the one that fails *)
FailsAt(a) == FirstIdx(a.ps, LAMBDA p : p.b = "fail")
Asked(a) == LET n == IF FailsAt(a) = 0 THEN Len(a.ps) ELSE FailsAt(a) IN
  FlattenSeq([k \in 1..n |-> IF a.ps[k].b \in {"const", "fail"} THEN << <<a.id \o "." \o ToString(k), <<>> >> >> ELSE <<>>])
Stop(r) ==   \* what is left is not done
  /\ res' = r /\ todo' = <<>>
Read ==
  /\ pc = "run" /\ todo # <<>> /\ Head(todo).h = "read" /\ UNCHANGED <<sid, sc, pc, boxed, calls>>
  /\ IF ParseError(1) THEN Stop("parse") /\ UNCHANGED val
     ELSE /\ todo' = Tail(todo) /\ UNCHANGED res
          /\ val' = [i \in 1..Len(sc.opts) |-> IF sc.opts[i].lv = 1 THEN Value(Name(i)) ELSE val[i]]
Do ==
  /\ pc = "run" /\ todo # <<>> /\ Head(todo).h # "read" /\ UNCHANGED <<sid, sc, pc>>
  /\ LET h == Head(todo).h a == Head(todo).a env == Head(todo).env
         asked == IF a.k \in Multi THEN calls \o Asked(a) ELSE calls
         ps == IF a.k \in Multi THEN [k \in 1..Len(a.ps) |-> Param(h, a.ps[k], k, env)]
               ELSE <<IF a.ps[1].b = "exact" THEN a.ps[1].v ELSE val[Idx(h)]>>
     IN IF a.k \in Multi /\ FailsAt(a) > 0 THEN Stop("bind failed") /\ calls' = asked /\ UNCHANGED <<val, boxed>>
        ELSE IF a.k = "redirect"
        THEN /\ val' = [val EXCEPT ![Idx(a.n)] = ps[1]] /\ todo' = Tail(todo) /\ UNCHANGED <<boxed, calls, res>>
        ELSE /\ calls' = Append(asked, <<a.id,
                   CASE a.k \in {"indirect", "bindind"} -> <<val[Idx(a.n)]>> \o ps
                     [] a.k = "bindctx" -> <<boxed>> \o ps
                     [] a.k = "eval" -> Append(ps, "item")
                     [] OTHER -> ps>>)
             /\ IF a.err THEN Stop("function failed") /\ UNCHANGED <<val, boxed>>
                ELSE /\ todo' = Tail(todo) /\ UNCHANGED res
                     /\ val' = IF a.k \in {"indirect", "bindind"} THEN [val EXCEPT ![Idx(a.n)] = @ \o "+" \o ps[1]] ELSE val
                     /\ boxed' = IF a.k = "bindctx" THEN boxed \o "+" \o ps[1] ELSE boxed
Finish ==
  /\ pc = "run" /\ todo = <<>> /\ UNCHANGED <<sid, sc, todo, val, boxed, calls, res>>
  /\ pc' = "done"
Step == TypeCase \/ Start \/ Read \/ Do \/ Finish
Done == pc \in {"done", "unspecified"}

Outcome ==
  IF pc = "unspecified" THEN [res |-> pc]
  ELSE IF sc.op = "type" THEN [res |-> "ok", v |-> val[1]]
  ELSE [res |-> res, calls |-> calls, boxed |-> boxed,
        final |-> [i \in 1..Len(sc.opts) |-> [n |-> Name(i), ty |-> OptType(Name(i)), v |-> IF res = "parse" THEN "" ELSE val[i]]]]
Agrees(obs) == pc = "unspecified" \/ obs = Outcome
Safety == pc \in {"type", "start", "run", "done", "unspecified", "judged"}
=============================================================================
