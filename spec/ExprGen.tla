------------------------------ MODULE ExprGen ------------------------------
(* Every small expression, enumerated from Expr: how tokens are split between *)
(* operators, and how chains of evaluators behave.                            *)
EXTENDS Expr, Json
CONSTANTS MaxToks, Wide

GenScen(x) == x
Ev(k) == [k |-> k, x |-> IF k \in {"not", "bnot"} THEN "1" ELSE IF k = "map" THEN "m" ELSE "", form |-> 0]
Op(n, al, args, k) == [name |-> n, aliases |-> al, args |-> args, ev |-> Ev(k), hooks |-> FALSE]
A(n, c) == [name |-> n, cnt |-> c]
Start(p, ops, toks, cu, b, f) ==
  ExprInit([place |-> p, ops |-> ops, expr |-> toks, custom |-> cu, batches |-> b, form |-> f])

(* one operator with one or two operands, and another whose name begins like an operand *)
Cnts == IF Wide THEN {"str", "list", "n1", "n2", "o1", "m1", "m2", "m3", "int"} ELSE {"str", "n1", "n2", "o1", "m2", "m3"}
ArgSets == {<<>>} \cup {<<A("a", c)>> : c \in Cnts \cup {"list", "m1", "int", "n3"}} \cup {<<A("a", c), A("b", d)>> : c \in Cnts, d \in Cnts}
Toks == {"-x", "-ab", "1", "p", "", "-", "--", "-z"} \cup (IF Wide THEN {"--a", "x", "-b=1"} ELSE {"--a"})
Splits ==
  \E as \in ArgSets, n \in 0..(IF Wide THEN MaxToks - 1 ELSE MaxToks) : \E t \in [1..n -> Toks] :
     Start("sep", <<Op("x", <<>>, as, "around"), Op("ab", <<"q">>, <<>>, "pass")>>, t, <<>>, <<<<"5">>>>, n % 2)
AfterOp ==   \* longer ones that begin with the operator
  \E as \in ArgSets, n \in {MaxToks} : \E t \in [1..n -> Toks \ {"-z", ""}] :
     Start("one", <<Op("x", <<>>, as, "around"), Op("ab", <<"q">>, <<>>, "pass")>>, <<"-x">> \o t, <<>>, <<<<"5">>>>, n % 2)

(* commands, which go up to their terminator, whatever they look like *)
Execs ==
  \E as \in {<<A("a", "exec")>>, <<A("a", "exec"), A("b", "str")>>, <<A("a", "str"), A("b", "exec")>>},
     n \in 0..(IF Wide THEN MaxToks + 1 ELSE MaxToks) : \E t \in [1..n -> {"-x", "p", ";", "+", "--", "-ab"}] :
     Start("sep", <<Op("x", <<>>, as, "around"), Op("ab", <<"q">>, <<>>, "pass")>>, <<"-x">> \o t, <<>>, <<<<"5">>>>, n % 2)

(* chains of three evaluators over two items, twice *)
Kinds == {"pass", "bpass", "drop", "err", "berr", "not", "bnot", "dup", "around", "errafter", "swallow", "map", "each", "true", "false", "errval"}
Few == {"pass", "not", "err", "dup", "around", "swallow", "each"}
Uses == {<<"-x", "1">>, <<"-y">>, <<"-z", "2">>}
Chains ==
  \E k1 \in Kinds, k2 \in Kinds, k3 \in (IF Wide THEN Kinds ELSE Few), u \in {<<1, 2, 3>>, <<3, 1, 2>>, <<1, 3, 1>>, <<2, 1>>, <<1, 1>>}, f \in 0..(IF Wide THEN 3 ELSE 0) :
    LET toks == <<<<"-x", "1">>, <<"-y">>, <<"-z", "2">>>>
    IN Start("list", <<Op("x", <<>>, <<A("v", "n1")>>, k1), Op("y", <<>>, <<>>, k2), Op("z", <<>>, <<A("v", "str")>>, k3)>>,
             FlattenSeq([j \in 1..Len(u) |-> toks[u[j]]]), <<>>, <<<<"1", "2">>, <<"1">>>>, f)
Own2 ==
  \E k1 \in Kinds, k2 \in Few, k3 \in Few, at \in {"pre", "post"}, at2 \in {"pre", "post"} :
     Start("sub", <<Op("x", <<>>, <<A("v", "n1")>>, k2)>>, <<"-x", "1", "-x", "2">>,
           <<[at |-> at, id |-> "c1", ev |-> Ev(k1)], [at |-> at2, id |-> "c2", ev |-> Ev(k3)]>>, <<<<"1", "2">>>>, 1)
GenInit == Splits \/ Execs \/ AfterOp \/ Chains \/ Own2
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, rest, uses, err, what, log, batch, item, stack, ret>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
