------------------------------ MODULE BindGen ------------------------------
(* Each kind of binding, in the Uses or Action of a flag, an arg and a command *)
(* and in an expression operator, with options of each type, declared or not;  *)
(* pairs of them; each type of function.                                       *)
EXTENDS Bind, Json
CONSTANT Max

GenScen(x) == x
NoEx == [args |-> <<>>, uses |-> <<>>, eval |-> <<>>, times |-> <<>>]
Base == [op |-> "run", sub |-> FALSE, opts |-> <<>>, uses |-> <<>>, action |-> <<>>, toks |-> <<>>, ex |-> NoEx, ty |-> "", via |-> "", v |-> ""]
O(n, arg, lv, ty) == [n |-> n, arg |-> arg, lv |-> lv, ty |-> ty, uses |-> <<>>, action |-> <<>>]
P(b, n, i, ty, v, via) == [b |-> b, n |-> n, i |-> i, ty |-> ty, v |-> v, via |-> via]
A(id, k, n, ps, err) == [id |-> id, k |-> k, n |-> n, ps |-> ps, err |-> err]
Txt(t) == CASE t = "int" -> "7" [] t = "bool" -> "true" [] t = "list" -> "p,q" [] OTHER -> "u"
Raw(t) == IF t = "list" THEN "p|q" ELSE Txt(t)

(* T: the types of f, g and a *)
Ty(T, n) == T[n]
Params(T, h, k) ==   \* the k-th parameter of an action of h
  {P("named", n, 0, T[n], "", via) : n \in {"f", "g", "a"}, via \in {"typed", "value"}}
  \cup {P("named", n, 0, T[n], "", "for") : n \in {m \in {"f", "a"} : T[m] # "box"}}
  \cup {P(b, "", 0, IF h = "" THEN T["a"] ELSE T[h], "", "typed") : b \in IF h = "" /\ k > 1 THEN {} ELSE {"implicit", "noexact"}}
  \cup (IF h = "" THEN {P("index", "", 0, T["a"], "", "typed")} ELSE {})
  \cup {P("const", "", 0, "int", "5", "typed"), P("fail", "", 0, "string", "", "typed"), P("ctx", "", 0, "ctx", "", "typed")}
  \cup (IF h # "" /\ T[h] = "bool" THEN {P("exact", "", 0, t, Raw(t), "typed") : t \in {"int", "string"}} ELSE {})
Wide == {"int", "string", "ctx"}
Ones(T, h, id) == {A(id, k, "", <<p>>, e) : k \in {"call", "action"}, p \in Params(T, h, 1), e \in {FALSE}}
Twos(T, h, id) == {A(id, "call", "", <<p, q>>, FALSE) : p \in {x \in Params(T, h, 1) : x.ty \in Wide}, q \in {x \in Params(T, h, 2) : x.ty \in Wide /\ x.via # "value"}}
Fit(a) == ~(Len(a.ps) = 2 /\ a.ps[1].ty = "ctx" /\ a.ps[2].ty = "ctx")
Threes(T, h, id) == {A(id, "action", "", <<P("const", "", 0, "int", "5", "typed"), p, q>>, FALSE) :
                       p \in {x \in Params(T, h, 2) : x.ty \in {"int", "string"} /\ x.via = "typed"}, q \in {x \in Params(T, h, 3) : x.ty \in {"int", "string"} /\ x.via = "typed"}}
Givens(T, h) == {P("noexact", "", 0, T[h], "", "")} \cup (IF T[h] = "bool" THEN {P("exact", "", 0, t, Raw(t), "") : t \in {"int", "string", "list"}} ELSE {})
Others(T, h, id) ==
  IF h = "" THEN {}
  ELSE {A(id, k, n, <<p>>, e) : k \in {"indirect", "bindind"}, n \in {m \in {"f", "g", "a"} : T[m] = "box"}, p \in {x \in Givens(T, h) : x.ty # "box"}, e \in BOOLEAN}
       \cup {A(id, k, "", <<p>>, e) : k \in {"bind", "bindctx"}, p \in {x \in Givens(T, h) : x.ty # "box"}, e \in BOOLEAN}
       \cup UNION {{A(id, "redirect", n, <<p>>, FALSE) : p \in {x \in Givens(T, h) : x.ty = T[n]}} : n \in {m \in {"f", "g", "a"} : m # h /\ T[m] # "box"}}
Acts(T, h, id) == {a \in Ones(T, h, id) \cup Others(T, h, id) \cup (IF Max > 1 THEN Twos(T, h, id) \cup Threes(T, h, id) ELSE {}) : Fit(a)}
Few(T, h, id) == {a \in Ones(T, h, id) : a.k = "call" /\ a.ps[1].via = "typed" /\ a.ps[1].b \in {"named", "implicit"}}
                 \cup {a \in Others(T, h, id) : a.k \in {"redirect", "indirect"} /\ ~a.err}

Types3 == {<<"string", "string", "string">>, <<"int", "int", "string">>, <<"bool", "string", "int">>, <<"string", "box", "int">>,
           <<"list", "list", "string">>, <<"bool", "box", "box">>, <<"int", "bool", "int">>, <<"bool", "list", "string">>}
Put(s, h, place, a) ==
  IF h = "" THEN (IF place = "uses" THEN [s EXCEPT !.uses = Append(@, a)] ELSE [s EXCEPT !.action = Append(@, a)])
  ELSE LET i == CASE h = "f" -> 1 [] h = "g" -> 2 [] h = "a" -> 3
       IN IF place = "uses" THEN [s EXCEPT !.opts[i].uses = Append(@, a)] ELSE [s EXCEPT !.opts[i].action = Append(@, a)]
Start3(ts, decl, sub, given, lv) ==
  LET names == <<"f", "g", "a">>
      opts == [i \in 1..3 |-> O(names[i], i = 3, IF sub THEN (IF i = 3 THEN 1 ELSE lv[i]) ELSE 0, IF i \in decl THEN ts[i] ELSE "")]
      toks == [i \in 1..3 |-> [o |-> names[i], v |-> IF ts[i] = "bool" THEN "" ELSE Txt(ts[i]), bare |-> ts[i] = "bool"]]
  IN [Base EXCEPT !.sub = sub, !.opts = opts, !.toks = FlattenSeq([i \in 1..3 |-> IF i \in given THEN <<toks[i]>> ELSE <<>>])]
Runs(k) ==
  \E ts \in Types3, decl \in IF Max > 1 \/ k = 1 THEN {{}, {1, 2, 3}, {1}, {2, 3}} ELSE {{}, {2, 3}}, sub \in BOOLEAN, given \in {{1, 2, 3}, {1, 3}, {2}} :
   \E lv \in IF sub THEN {<<0, 0>>, <<0, 1>>, <<1, 1>>} ELSE {<<0, 0>>} :
    \E h1 \in {"", "f", "g", "a"}, p1 \in {"uses", "action"} :
     LET T == [f |-> ts[1], g |-> ts[2], a |-> ts[3]]
         s0 == Start3(ts, decl, sub, given, lv) IN
     IF k = 1 THEN \E a1 \in Acts(T, h1, "c1") : BindInit(Put(s0, h1, p1, a1))
     ELSE /\ given = {1, 2, 3}
          /\ \E h2 \in {"", "f", "g", "a"} : \E a1 \in Few(T, h1, "c1"), a2 \in Few(T, h2, "c2") :
               BindInit(Put(Put(s0, h1, p1, a1), h2, IF Max > 1 THEN "uses" ELSE p1, a2))
Exprs ==
  \E x \in {"int", "string"}, y \in {"", "int", "string"}, dx \in BOOLEAN, dy \in BOOLEAN, place \in {"uses", "eval"}, f \in {"string", "int"}, n \in 1..2 :
    LET args == <<O("x", TRUE, 0, IF dx THEN x ELSE "")>> \o (IF y = "" THEN <<>> ELSE <<O("y", TRUE, 0, IF dy THEN y ELSE "")>>)
        times == [i \in 1..n |-> <<IF x = "int" THEN "7" ELSE IF i = 1 THEN "u" ELSE "v">> \o (IF y = "" THEN <<>> ELSE <<IF i = 1 THEN "5" ELSE "0">>)]
        pars(k) == {P("named", "x", 0, x, "", "typed"), P("named", "f", 0, f, "", "value"), P("const", "", 0, "int", "5", "typed"),
                    P("index", "", 0, x, "", "for")}
                   \cup (IF y # "" THEN {P("named", "y", 0, y, "", "for"), P("index", "", 1, y, "", "typed")} ELSE {})
                   \cup (IF k = 1 THEN {P("implicit", "", 0, x, "", "typed"), P("noexact", "", 0, x, "", "typed")} ELSE IF y # "" /\ k = 2 THEN {P("implicit", "", 0, y, "", "value")} ELSE {})
        opts == <<O("f", FALSE, 0, IF dx THEN f ELSE "")>>
        toks == <<[o |-> "f", v |-> Txt(f), bare |-> FALSE]>>
    IN \E m \in 1..(IF Max > 1 THEN 2 ELSE 2), err \in BOOLEAN : \E p \in pars(1), q \in (IF m = 2 THEN pars(2) ELSE {P("ctx", "", 0, "ctx", "", "typed")}) :
         LET act == <<A("c1", "eval", "", IF m = 1 THEN <<p>> ELSE <<p, q>>, err)>> IN
         /\ err => m = 1
         /\ BindInit([Base EXCEPT !.opts = opts, !.toks = toks,
                       !.ex = [args |-> args, times |-> times, uses |-> IF place = "uses" THEN act ELSE <<>>, eval |-> IF place = "eval" THEN act ELSE <<>>]])
Texts == {<<"bool", "true">>, <<"string", "a b">>, <<"list", "a,b">>, <<"int", "3">>, <<"int8", "3">>, <<"int16", "3">>, <<"int32", "3">>, <<"int64", "3">>,
          <<"uint", "3">>, <<"uint8", "3">>, <<"uint16", "3">>, <<"uint32", "3">>, <<"uint64", "3">>, <<"float32", "1.5">>, <<"float64", "1.5">>,
          <<"duration", "2s">>, <<"file", "f">>, <<"fileset", "f">>, <<"map", "a=b">>, <<"namevalue", "a=b">>, <<"namevalues", "a=b,c=d">>,
          <<"url", "http://a/b">>, <<"regexp", "a+">>, <<"ip", "127.0.0.1">>, <<"bigint", "7">>, <<"bigfloat", "1.5">>, <<"bytes", "6162">>, <<"any", "x">>}
Typeds == \E t \in Texts, via \in {"typed", "value", "for"}, imp \in BOOLEAN : BindInit([Base EXCEPT !.op = "type", !.ty = t[1], !.v = t[2], !.via = via, !.sub = imp])
GenInit == Typeds \/ Exprs \/ Runs(1) \/ Runs(2)
Emit == /\ Done /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, val, boxed, calls, res>>
        /\ IF pc = "unspecified" THEN TRUE ELSE PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
