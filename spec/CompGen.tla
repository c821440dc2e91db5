------------------------------ MODULE CompGen ------------------------------
(* Every completion of small command trees, enumerated from Comp.            *)
EXTENDS Comp, Json
CONSTANTS MaxToks, Wide

GenScen(x) == x
Vals(s) == [k |-> "vals", vals |-> s]
RG == Vals(<<"red", "rose", "green">>)
F(n, al, k, h, np, c) == [name |-> n, aliases |-> al, kind |-> k, hidden |-> h, np |-> np, req |-> FALSE, comp |-> c]
A(n, c, comp) == [name |-> n, cnt |-> c, comp |-> comp]
C(n, al, h, fs, as, ss) == [name |-> n, aliases |-> al, hidden |-> h, flags |-> fs, args |-> as, subs |-> ss]
B == BOOLEAN
Modes == IF Wide THEN {"call", "zsh"} ELSE {"call"}
Go(m, r, ts, inc) == CompInit([mode |-> m, root |-> r, argv |-> ts, inc |-> inc])

(* a program without sub-commands: flags that compete for a name, and args *)
FlagKinds == IF Wide THEN {"bool", "str", "opt", "list"} ELSE {"bool", "str", "opt"}
Plain1 ==
  \E k1 \in FlagKinds, k2 \in {"bool", "str"}, h \in B,
     as \in {<<>>, <<A("aa", "str", RG)>>, <<A("aa", "n1", RG), A("bb", "list", Vals(<<"rr">>))>>},
     n \in 0..MaxToks, m \in Modes :
  \E ts \in [1..n -> {"-c", "--color", "--color=x", "-cx", "--col", "w", "--"}],
     inc \in {"", "r", "-", "-c", "-cr", "--co", "--col", "--color", "--color=r", "--col=r"} :
     Go(m, C("app", <<>>, FALSE, <<F("color", <<"c">>, k1, h, FALSE, RG), F("col", <<>>, k2, FALSE, FALSE, None)>>, as, <<>>), ts, inc)

(* sub-commands: what is inherited, what is hidden, what is shadowed *)
Tree ==
  \E np \in B, h1 \in B, h2 \in B, k \in {"bool", "str"}, own \in {<<>>, <<F("color", <<>>, "str", FALSE, FALSE, RG)>>, <<F("size", <<"c">>, "bool", FALSE, FALSE, None)>>},
     as \in {<<>>, <<A("aa", "str", RG)>>, <<A("aa", "m1", RG)>>}, n \in 0..MaxToks, m \in Modes :
  \E ts \in [1..n -> {"sub", "s", "su", "get", "-c", "--color", "w", "--size"}],
     inc \in {"", "s", "su", "g", "r", "-", "--", "--c", "--color=", "-c", "-cg", "zz"} :
     Go(m, C("app", <<>>, FALSE, <<F("color", <<"c">>, k, FALSE, np, RG)>>, <<>>,
             <<C("sub", <<"s">>, h1, own, as, <<>>), C("su", <<>>, h2, <<>>, <<>>, <<C("get", <<"g">>, FALSE, own, as, <<>>)>>)>>), ts, inc)

Kinds5 == {"str", "n1", "n2", "list", "m1", "m2", "m3"}
ArgsG ==
  \E c1 \in Kinds5, c2 \in Kinds5, comp \in {RG, None, [k |-> "file", vals |-> <<>>], [k |-> "dir", vals |-> <<>>], [k |-> "func", vals |-> <<>>]},
     n \in 0..(MaxToks + 1), m \in Modes :
  \E ts \in [1..n -> {"w", "-c", "-x", "--"}], inc \in {"", "r", "g", "-"} :
     Go(m, C("app", <<>>, FALSE, <<F("c", <<>>, "bool", FALSE, FALSE, None), F("x", <<>>, "str", FALSE, FALSE, comp)>>,
             <<A("aa", c1, comp), A("bb", c2, Vals(<<"rr", "g">>))>>, <<>>), ts, inc)

GenInit == Plain1 \/ Tree \/ ArgsG
Emit == /\ Done /\ IF pc = "done" THEN PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>) ELSE TRUE
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, cmd, inh, toks, offer>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
