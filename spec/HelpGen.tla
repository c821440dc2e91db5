------------------------------ MODULE HelpGen ------------------------------
(* Each way of asking for help for each command of one tree, with its        *)
(* sub-commands, flags and args in every state of visibility; and the usage  *)
(* line for every pair of flags and of args.                                 *)
EXTENDS Help, Json
CONSTANT Wide

GenScen(x) == x
El(k, up, nm) == [k |-> k, up |-> up, name |-> nm, aliases |-> <<>>, opts |-> <<>>, cat |-> "", help |-> FALSE, kind |-> "", act |-> FALSE, text |-> FALSE, ph |-> <<>>]
Cmd(up, nm, opts, cat, hp, act) == [El("cmd", up, nm) EXCEPT !.opts = opts, !.cat = cat, !.help = hp, !.act = act]
Flag(up, nm, kind, opts, cat, hp) == [El("flag", up, nm) EXCEPT !.kind = kind, !.opts = opts, !.cat = cat, !.help = hp]
Arg(up, nm, kind, opts) == [El("arg", up, nm) EXCEPT !.kind = kind, !.opts = opts]
Sees == {<<>>, <<"Hidden">>, <<"Visible">>, <<"Hidden", "Visible">>, <<"DisableAutoVisibility">>}
Ask(els, via, i, toks, pre) ==
  HelpInit([els |-> els, via |-> via, at |-> i, toks |-> toks,
            argv |-> pre \o (CASE via = "flag" -> <<"--help">> [] via = "command" -> <<"help">> [] via = "none" -> <<>>) \o toks])
(* the ways to ask for the root, its sub-command m, and the sub-command n of that *)
Ways(els, m, n) ==
  \/ Ask(els, "none", 1, <<>>, <<>>) \/ Ask(els, "flag", 1, <<>>, <<>>) \/ Ask(els, "command", 1, <<>>, <<>>)
  \/ \E t \in {"flag", "command"}, rest \in {<<>>, <<n>>, <<"zz">>} : Ask(els, t, 1, <<m>> \o rest, <<>>)
  \/ Ask(els, "flag", 1, <<"zz">>, <<>>) \/ Ask(els, "command", 1, <<"zz">>, <<>>)
  \/ Ask(els, "flag", 1, <<m, "-q", n, "--z", "q">>, <<>>)
  \/ \E rest \in {<<>>, <<n>>, <<n, "q">>, <<"zz">>} : Ask(els, "flag", 2, rest, <<m>>)
  \/ Ask(els, "flag", 3, <<>>, <<m, n>>)
  \/ Ask(els, "none", 2, <<>>, <<m>>) \/ Ask(els, "none", 3, <<>>, <<m, n>>)
Hiding ==
  \E m \in {"sub", "_sub"}, n \in {"deep", "_deep"}, mo \in Sees, no \in Sees, ro \in {<<>>, <<"DisableAutoVisibility">>},
     acts \in (IF Wide THEN {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>} ELSE {<<FALSE, TRUE>>}) :
    Ways(<< Cmd(0, "app", ro, "", FALSE, acts[1]), Cmd(1, m, mo, "", TRUE, acts[2]), Cmd(2, n, no, "", TRUE, TRUE),
            Cmd(1, "other", <<>>, "", FALSE, TRUE) >>, m, n)
Grouped ==
  \E c1 \in {"", "Cat", "Zed"}, c2 \in {"", "Cat", "Other"}, f1 \in {"", "Cat", "Zed"}, f2 \in {"", "Cat", "Other"},
     h1 \in BOOLEAN, h2 \in BOOLEAN, hid \in {<<>>, <<"Hidden">>} :
    LET els == << Cmd(0, "app", <<>>, "", TRUE, FALSE), Cmd(1, "sub", <<>>, c1, h1, TRUE), Cmd(2, "deep", <<>>, c2, h2, TRUE),
                  Cmd(1, "other", hid, c2, TRUE, TRUE),
                  Flag(1, "long", "string", hid, f1, h1), Flag(1, "f", "bool", <<>>, f2, h2),
                  Flag(2, "flag", "bool", <<>>, f2, h1), Flag(2, "g", "int", hid, f1, h2), Flag(3, "x", "list", <<>>, f2, h2) >>
    IN \/ Ask(els, "flag", 1, <<>>, <<>>) \/ Ask(els, "flag", 2, <<>>, <<"sub">>) \/ Ask(els, "command", 1, <<"sub", "deep">>, <<>>)
FlagOpts == {<<>>, <<"Hidden">>, <<"Exits">>, <<"Required">>, <<"Visible">>}
Flags2 ==
  \E k1 \in {"bool", "string", "map"}, k2 \in {"bool", "int", "list"}, n1 \in {"b", "_l", "long"}, n2 \in {"a", "_m", "more"},
     o1 \in FlagOpts, o2 \in FlagOpts, al \in {<<>>, <<"alias">>, <<"s">>} :
    /\ Wide \/ (al = <<>> \/ k2 = "bool")
    /\ al # <<>> => ((Len(n1) = 1) # (Len(al[1]) = 1))
    /\ LET els == << Cmd(0, "app", <<>>, "", FALSE, FALSE), Cmd(1, "sub", <<>>, "", FALSE, TRUE),
                     [Flag(2, n1, k1, o1, "", TRUE) EXCEPT !.aliases = al], Flag(2, n2, k2, o2, "", FALSE) >>
       IN Ask(els, "flag", 1, <<"sub">>, <<>>) \/ (Wide /\ Ask(els, "command", 1, <<"sub">>, <<>>))
Counts == {"0", "1", "2", "-1", "opt"}
Args3 ==
  \E c1 \in Counts, c2 \in Counts, c3 \in Counts, r \in {<<>>, <<"RightToLeft">>}, h \in {<<>>, <<"Hidden">>}, which \in 1..3, subs \in BOOLEAN, tx \in BOOLEAN :
    LET A(n, c) == [Arg(2, n, c, IF which = (CASE n = "a" -> 1 [] n = "b" -> 2 [] n = "c" -> 3) THEN h ELSE <<>>) EXCEPT !.text = tx]
        els == << Cmd(0, "app", <<>>, "", FALSE, FALSE), Cmd(1, "sub", r, "", FALSE, TRUE), A("a", c1), A("b", c2), A("c", c3) >>
               \o (IF subs THEN <<Cmd(2, "deep", <<>>, "", FALSE, TRUE)>> ELSE <<>>)
    IN (Wide \/ ~tx \/ c3 = "1") /\ Ask(els, "flag", 1, <<"sub">>, <<>>)
Texts ==
  \E t \in [1..4 -> BOOLEAN] :
    LET els == << [Cmd(0, "app", <<>>, "", TRUE, FALSE) EXCEPT !.text = t[1]], [Cmd(1, "sub", <<>>, "", TRUE, TRUE) EXCEPT !.text = t[2]],
                  [Flag(1, "long", "string", <<>>, "", TRUE) EXCEPT !.text = t[3]], [Arg(2, "a", "0", <<>>) EXCEPT !.text = t[4]],
                  [Flag(2, "f", "int", <<>>, "", TRUE) EXCEPT !.text = t[3]] >>
    IN Ask(els, "flag", 1, <<>>, <<>>) \/ Ask(els, "flag", 2, <<>>, <<"sub">>)
(* every arrangement of names, sorted or not, however the command is come to *)
Ordered ==
  \E so \in {<<>>, <<"SortedFlags">>, <<"SortedCommands">>, <<"SortedFlags", "SortedCommands">>}, ro \in {<<>>, <<"SortedFlags">>, <<"SortedCommands">>},
     fs \in {<<"z", "long", "a">>, <<"lo", "long", "l">>, <<"_fl", "a", "_a">>}, cs \in {<<"z", "deep">>, <<"deep", "de">>}, c \in {"", "Cat"} :
    LET els == << Cmd(0, "app", ro, "", TRUE, FALSE), Cmd(1, "sub", so, "", TRUE, TRUE), Cmd(2, cs[1], so, c, TRUE, TRUE), Cmd(2, cs[2], <<>>, "", TRUE, TRUE),
                  Cmd(1, "other", <<>>, "", TRUE, TRUE),
                  Flag(1, "top", "string", <<>>, "", TRUE), Flag(1, "high", "string", <<>>, c, TRUE) >>
               \o [n \in 1..3 |-> Flag(2, fs[n], "string", <<>>, IF n = 2 THEN c ELSE "", TRUE)]
    IN \/ Ask(els, "flag", 1, <<>>, <<>>) \/ Ask(els, "command", 1, <<"sub">>, <<>>) \/ Ask(els, "flag", 2, <<>>, <<"sub">>)
       \/ Ask(els, "command", 1, <<"sub", cs[1]>>, <<>>)
Placeholders ==
  \E k \in {"string", "list", "bool"} \cup (IF Wide THEN {"uint", "float", "duration", "url", "ip", "regexp", "file", "files", "bigint"} ELSE {}), tx \in BOOLEAN, hp \in BOOLEAN, nm \in {"f", "flag"}, o \in {<<>>, <<"Exits">>}, n \in 0..(IF Wide THEN 3 ELSE 2) :
    \E ph \in [1..n -> [n : {"X", "FILE"} \cup (IF Wide THEN {"Y"} ELSE {}), pos : {-1, 0, 1, 2}]] :
      (tx => k # "bool" /\ n < 2) /\ (~hp => n < 2) /\ (Len(nm) = 1 \/ n < 3) /\
      Ask(<< Cmd(0, "app", <<>>, "", FALSE, FALSE), Cmd(1, "sub", <<>>, "", FALSE, TRUE),
             [Flag(2, nm, k, o, "", hp) EXCEPT !.text = tx, !.ph = ph], Flag(2, "g", "bool", <<>>, "", TRUE) >>, "flag", 2, <<>>, <<"sub">>)
GenInit == Ordered \/ Placeholders \/ Hiding \/ Grouped \/ Flags2 \/ Args3 \/ Texts
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, at, todo, sec, lines>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
