------------------------------ MODULE FopsGen ------------------------------
(* Every short sequence of operations in small trees.                      *)
EXTENDS Fops, Json
CONSTANT Max

GenScen(x) == x
N(p, k) == << [p |-> p, k |-> k, t |-> IF k = "f" THEN "one" ELSE ""] >>
Trees == {<<>>, N(<<"a">>, "f"), N(<<"x">>, "d") \o N(<<"x", "a">>, "f"), N(<<"a">>, "f") \o N(<<"x">>, "d") \o N(<<"x", "a">>, "d"), N(<<"a">>, "d") \o N(<<"x">>, "f")}
P == {<<"a">>, <<"x">>, <<"x", "a">>}
O(op, p, q, f, t) == [op |-> op, p |-> p, q |-> q, form |-> f, t |-> t]
Asks == {"read", "readf", "readctx", "readdead", "writedead", "stat", "mtime", "exists", "walk", "walkskip"}
Ops == {O(op, p, <<>>, "plain", "") : op \in Asks \cup {"remove", "removeall"}, p \in P}
       \cup {O(op, p, <<>>, "plain", "w") : op \in {"create", "append", "over", "excl", "rdwr", "rdwra"}, p \in P}
       \cup {O(op, p, <<>>, "plain", "700") : op \in {"mkdir", "mkdirall", "chmod"}, p \in P}
       \cup {O("rename", p, q, "plain", "") : p \in P, q \in P} \cup {O("chtimes", p, <<>>, "plain", "t1") : p \in P}
       \cup {O("create", <<"a">>, <<>>, "plain", ""), O("mkdirall", <<"x", "y", "b">>, <<>>, "plain", "755"), O("rename", <<"x">>, <<"y">>, "plain", "")}
Few == {O(op, p, <<>>, "plain", "") : op \in {"remove", "removeall"}, p \in P} \cup {O("create", p, <<>>, "plain", "w") : p \in P}
       \cup {O("mkdir", p, <<>>, "plain", "700") : p \in P} \cup {O("rename", p, q, "plain", "") : p \in P, q \in P} \cup {O("mkdirall", <<"x", "a">>, <<>>, "plain", "755")}
Stds == {O(op, <<"-">>, <<>>, "plain", "w") : op \in {"create", "append", "over", "rdwr", "rdwra", "read", "readf", "readctx", "stat", "exists", "walk"}}
        \cup {O("create", <<"a">>, <<>>, "plain", "w"), O("read", <<"a">>, <<>>, "abs", "")}
Dash == {O(op, p, <<>>, "plain", "w") : op \in {"create", "append", "read", "readf", "readctx", "stat", "exists", "walk"}, p \in {<<"-">>, <<"x", "-">>}} \cup {O("remove", <<"x", "-">>, <<>>, "plain", "")}
With(f, o) == [o EXCEPT !.form = f]
S(kind, tree, ops) == FopsInit([kind |-> kind, tree |-> tree, stdin |-> "in", ops |-> ops])
GenInit ==
  \/ \E tree \in Trees, kind \in {"dir", "sub", "new", "ro", "sys", "app"}, f \in {"plain", "dot", "abs"}, o \in Ops :
       (kind = "ro" => f = "plain") /\ (o.op = "rename" => f # "abs" \/ kind # "app") /\ S(kind, tree, <<With(f, o)>>)
  \/ \E tree \in Trees, o1 \in Ops, o2 \in Ops : (o1.op \in Changes) /\ S("dir", tree, <<o1, o2>>)
  \/ \E kind \in {"sys", "app"} : \E n \in 1..Max : \E os \in [1..n -> Stds] : S(kind, N(<<"a">>, "f"), os)
  \/ \E kind \in {"dir", "sub", "new", "ro", "sys", "app"}, o1 \in Dash, o2 \in Dash, f \in {"plain", "abs"} :
       (kind = "ro" => f = "plain") /\ S(kind, N(<<"x">>, "d") \o N(<<"x", "-">>, "f"), <<o1, IF o2.p = <<"-">> THEN o2 ELSE With(f, o2)>>)
  \/ Max > 2 /\ \E tree \in Trees, o1 \in Few, o2 \in Few, o3 \in Ops : S("dir", tree, <<o1, o2, o3>>)
Emit == /\ Done /\ (IF Sure THEN PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>) ELSE TRUE)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, nodes, input, out, results>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
