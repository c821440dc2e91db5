-------------------------------- MODULE Prov --------------------------------
(***************************************************************************)
(* Providers: the value that names one and its arguments, the registry     *)
(* that says which there are, and what it makes of them.                   *)
(*                                                                         *)
(* Scenario op "new": provs, calls [name, opts]: calls of Registry.New     *)
(*   provs: [name, defs, kind]: kind func (makes "name:k=v,..."), fail or  *)
(*   value; defs, opts: sequences of <<key, value>> in order of their keys *)
(* op "fac": a function of a struct {A, B string; N int} or a map as a     *)
(*   factory: sig (one two err string map), strict, opts                   *)
(* op "app": flags p (or arg p), p-arg and list-p in the command `home`,   *)
(*   declared in `order`; the registry in the Uses of `reg`; toks: how     *)
(*   they are used, [f (p a l), name, items]; the first use of p has the   *)
(*   name and further ones only items; split: DisableSplitting.            *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, name, named, args, res, out, calls
vars == <<sid, sc, pc, todo, name, named, args, res, out, calls>>
(* args: sequence of <<key, value>> as they were set; out: what is listed or made *)

Keys == <<"", "A", "B", "Extra", "N", "a", "b", "changed", "n", "z", "zz">>   \* in order
Has(p, k) == \E i \in 1..Len(p) : p[i][1] = k
Last(p, k) == p[CHOOSE i \in 1..Len(p) : p[i][1] = k /\ \A j \in 1..Len(p) : p[j][1] = k => j <= i][2]
RECURSIVE Ordered(_, _)
Ordered(p, ks) == IF ks = <<>> THEN <<>>
                  ELSE (IF Has(p, Head(ks)) THEN << <<Head(ks), Last(p, Head(ks))>> >> ELSE <<>>) \o Ordered(p, Tail(ks))
Map(p) == Ordered(p, Keys)   \* each key once with the value set last
Text(p, sep) == JoinStr([i \in 1..Len(p) |-> p[i][1] \o "=" \o p[i][2]], sep)

Prov(n) == SelectSeq(sc.provs, LAMBDA p : p.name = n)
Known(n) == Prov(n) # <<>>
(* What the registry makes: the defaults, replaced and added to by the options *)
Made(n, opts) ==
  IF ~Known(n) THEN "not found"
  ELSE LET p == Prov(n)[1] IN
       CASE p.kind = "value" -> "value of " \o n
         [] p.kind = "fail" -> "failed"
         [] p.kind = "func" -> n \o ":" \o Text(Map(p.defs \o opts), ",")
Calls(n) == IF Known(n) /\ Prov(n)[1].kind # "value" THEN 1 ELSE 0

ProvInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ pc = Scen(id).op
  /\ todo = CASE Scen(id).op = "new" -> Scen(id).calls [] Scen(id).op = "app" -> Scen(id).toks [] OTHER -> <<>>
  /\ name = Scen(id).preset /\ named = FALSE /\ args = <<>> /\ res = "ok" /\ out = <<>> /\ calls = 0

New ==
  /\ pc = "new" /\ UNCHANGED <<sid, sc, name, named, args, res>>
  /\ IF todo = <<>> THEN pc' = "done" /\ UNCHANGED <<todo, out, calls>>
     ELSE /\ todo' = Tail(todo) /\ out' = Append(out, Made(Head(todo).name, Head(todo).opts))
          /\ calls' = calls + Calls(Head(todo).name) /\ UNCHANGED pc

(* A factory of a struct: each option is the field of its name, in either case *)
Field(f) == LET p == SelectSeq(sc.opts, LAMBDA o : o[1] = f \/ (f = "B" /\ o[1] = "b")) IN IF p = <<>> THEN "" ELSE p[1][2]
Number(s) == s \in {"1", "23"}
Fac ==
  /\ pc = "fac" /\ pc' = "done" /\ UNCHANGED <<sid, sc, todo, name, named, args, out>>
  /\ LET bad == /\ sc.sig # "map"
                /\ \/ Has(sc.opts, "N") /\ ~Number(Field("N"))
                   \/ sc.strict /\ Has(sc.opts, "Extra")
         shown == IF sc.sig = "map" THEN Text(sc.opts, ",")
                  ELSE Field("A") \o "/" \o Field("B") \o "/" \o (IF Has(sc.opts, "N") THEN Field("N") ELSE "0")
     IN /\ res' = IF bad THEN "invalid" ELSE IF sc.sig = "err" THEN "failed " \o shown ELSE shown
        /\ calls' = IF bad THEN 0 ELSE 1

------------------------------------------------------------------------------
(* An app.  While the command line is bound, each use of p sets the value. *)
Joined(items) == \* without splitting, all of the text after the first key is its value
  IF sc.split /\ items # <<>>
  THEN << <<items[1][1], items[1][2] \o (IF Len(items) = 1 THEN "" ELSE "," \o Text(Tail(items), ","))>> >>
  ELSE items
Bind ==
  /\ pc = "app" /\ UNCHANGED <<sid, sc, res, out, calls>>
  /\ IF todo = <<>> THEN pc' = "actions" /\ todo' = sc.order /\ UNCHANGED <<name, named, args>>
     ELSE /\ todo' = Tail(todo) /\ UNCHANGED pc
          /\ IF Head(todo).f # "p" THEN UNCHANGED <<name, named, args>>
             ELSE /\ name' = IF named THEN name ELSE Head(todo).name
                  /\ named' = TRUE /\ args' = args \o Joined(Head(todo).items)
Used(f) == \E i \in 1..Len(sc.toks) : sc.toks[i].f = f
Validates == sc.reg \in {"app", "sub", "flag"} /\ ~sc.allow
Declared(n, p) == \A i \in 1..Len(p) : p[i][1] \in {Prov(n)[1].defs[j][1] : j \in 1..Len(Prov(n)[1].defs)}
(* Actions of what was used, in the order of declaration; args come last *)
Seq1(o) == IF sc.el = "arg" THEN SelectSeq(o, LAMBDA x : x # "p") \o <<"p">> ELSE o
RECURSIVE Each(_, _)
Each(f, i) == IF i > Len(sc.toks) THEN <<>>
              ELSE (IF sc.toks[i].f = f THEN Joined(sc.toks[i].items) ELSE <<>>) \o Each(f, i + 1)
Listing == LET named1(n) == Prov(n)[1] IN
  [i \in 1..Len(sc.provs) |-> sc.provs[i].name \o "\t" \o Text(sc.provs[i].defs, ", ")]
End(r) == res' = r /\ pc' = "done"
Begin == \* the arg is bound after the flags that precede it, and in its place among actions
  /\ pc = "actions" /\ todo = sc.order /\ Seq1(todo) # todo /\ todo' = Seq1(todo) /\ UNCHANGED <<sid, sc, pc, name, named, args, res, out, calls>>
Act ==
  /\ pc = "actions" /\ ~(todo = sc.order /\ Seq1(todo) # todo) /\ UNCHANGED <<sid, sc, name, named>>
  /\ IF todo = <<>>
     THEN /\ pc' = "done" /\ out' = <<Made(name, args)>> /\ calls' = calls + Calls(name) /\ res' = "ran" /\ UNCHANGED <<args, todo>>
     ELSE LET o == Head(todo) IN
          /\ todo' = Tail(todo) /\ UNCHANGED calls
          /\ IF ~Used(o) THEN UNCHANGED <<pc, args, res, out>>
             ELSE CASE o = "p" ->
                    /\ UNCHANGED <<args, out>>
                    /\ IF Validates /\ ~Known(name) THEN End("unknown \"" \o name \o "\" p")
                       ELSE IF Validates /\ ~Declared(name, args) THEN End("unknown argument")
                       ELSE UNCHANGED <<pc, res>>
                  [] o = "a" ->
                    LET more == args \o Each("a", 1) IN
                    /\ args' = more /\ UNCHANGED out
                    /\ IF Validates /\ Known(name) /\ ~Declared(name, more) THEN End("unknown argument")
                       ELSE UNCHANGED <<pc, res>>
                  [] o = "l" -> out' = (IF sc.reg \in {"none", "other"} THEN <<>> ELSE Listing) /\ UNCHANGED args /\ End("exit 0")
Step == New \/ Fac \/ Bind \/ Begin \/ Act
Done == pc = "done"

Str1 == name \o (IF args = <<>> THEN "" ELSE "," \o Text(Map(args), ","))
Outcome ==
  CASE sc.op = "new" -> [res |-> out, names |-> [i \in 1..Len(sc.provs) |-> sc.provs[i].name], calls |-> calls]
    [] sc.op = "fac" -> [res |-> res, calls |-> calls]
    [] sc.op = "app" ->
       [res |-> (IF res = "ran" THEN "ok" ELSE res), ran |-> res = "ran", made |-> (IF res = "ran" THEN out[1] ELSE ""),
        name |-> name, args |-> Map(args), str |-> Str1, list |-> (IF res = "exit 0" THEN out ELSE <<>>), calls |-> calls]
Agrees(obs) == obs = Outcome
Safety ==
  /\ (Done /\ sc.op = "app" /\ res = "ran" /\ Validates /\ Used("p")) => Known(name) /\ Declared(name, args)
  /\ (Done /\ sc.op = "app" /\ res # "ran") => calls = 0
  /\ (Done /\ sc.op = "app") => (Used("p") \/ name = sc.preset)
=============================================================================
