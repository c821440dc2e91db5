----------------------------- MODULE ColorGen -----------------------------
(* Every way to decide whether there is color; every short sequence of       *)
(* operations; every function of templates.                                  *)
EXTENDS Color, Json
CONSTANT Max

GenScen(x) == x
Base == [out |-> "mem", nocolor |-> FALSE, dumb |-> FALSE, feats |-> <<>>, uses |-> <<>>, before |-> <<>>, argv |-> <<>>, sub |-> FALSE, ops |-> <<>>]
Op(o, w) == [op |-> o, w |-> w, t |-> "", name |-> "", pieces |-> <<>>]
OpT(o, w, t) == [Op(o, w) EXCEPT !.t = t]
OpN(o, w, n, t) == [OpT(o, w, t) EXCEPT !.name = n]
Pc(k, t) == [k |-> k, fns |-> <<>>, t |-> t, items |-> <<>>]
PcF(k, t, fns) == [Pc(k, t) EXCEPT !.fns = fns]
Rend(ps) == [Op("render", "out") EXCEPT !.pieces = ps]
F(f, a) == [f |-> f, arg |-> a]
Show == << Op("cap", "out"), Op("cap", "err"), OpN("styled", "out", "Underline", "x"), Op("newbuf", "buf"), Op("cap", "buf"), Rend(<<Pc("emoji", "Fire"), PcF("pipe", "x", <<Bold>>)>>) >>

Modes == {"on", "off", "auto", "always", "never", "detect"}
M1 == {<<>>} \cup {<<m>> : m \in Modes}
Argvs == {<<>>, <<"--color">>, <<"--no-color">>, <<"--color=">>, <<"--color=always", "--color=never">>, <<"--color=never", "--color=auto">>}
         \cup {<<"--color=" \o v>> : v \in {"auto", "always", "never", "true", "false", "ON", "maybe"}}
FeatSets == {<<>>, <<"flag">>, <<"no">>, <<"mode">>, <<"funcs">>, <<"flag", "no">>, <<"flag", "mode">>, <<"no", "mode">>, <<"flag", "funcs">>, <<"no", "funcs">>}
B(x) == IF x THEN 1 ELSE 0
Detects ==
  \E out \in {"mem", "cli", "cli+", "tty"}, nc \in BOOLEAN, du \in BOOLEAN, sub \in BOOLEAN :
   \E u \in M1, b \in M1, a \in Argvs, fe \in FeatSets :
     /\ B(nc) + B(du) + B(sub) + B(u # <<>>) + B(b # <<>>) + B(a # <<>>) + B(fe # <<>>) <= Max
     /\ ColorInit([Base EXCEPT !.out = out, !.nocolor = nc, !.dumb = du, !.sub = sub, !.uses = u, !.before = b, !.argv = a, !.feats = fe, !.ops = Show])

Ops == {OpT("wset", w, t) : w \in {"out", "err", "buf"}, t \in {"on", "off"}} \cup {Op("wauto", w) : w \in {"out", "buf"}} \cup {OpT("set", "out", t) : t \in {"on", "off"}}
       \cup {Op("auto", "out"), Op("newbuf", "buf"), Op("newbuf0", "buf"), Op("cap", "out"), Op("cap", "buf"), OpN("styled", "out", "Bold", "a"), OpN("styled", "err", "Faint", "b"),
             OpN("fg", "buf", "Red", ""), OpN("bg", "out", "Default", ""), Op("reset", "out"), OpT("print", "out", "p"), OpT("underline", "err", "u"),
             Rend(<<Pc("emoji", "Tada"), PcF("pipe", "x", <<F("Red", "")>>)>>)}
Few == {OpT("wset", "out", "on"), OpT("wset", "buf", "on"), OpT("set", "out", "on"), OpT("set", "out", "off"), Op("auto", "out"), Op("newbuf", "buf"), Op("cap", "err"), OpN("styled", "out", "Bold", "a"),
        OpN("styled", "buf", "Faint", "b"), Op("wauto", "out"), Rend(<<Pc("emoji", "Tada"), PcF("pipe", "x", <<F("Red", "")>>)>>)}
Seqs(set, n) == \E m \in 1..n, out \in {"mem", "cli+"} : \E os \in [1..m -> set] : ColorInit([Base EXCEPT !.out = out, !.ops = os])

Singles == {OpN(o, w, n, "t") : o \in {"styled", "style"}, w \in {"out", "buf"}, n \in DOMAIN Styles} \cup {OpN(o, w, n, "") : o \in {"fg", "bg"}, w \in {"out", "err"}, n \in DOMAIN Colors}
           \cup {OpT(o, w, t) : o \in {"bold", "underline", "write", "wstr"}, w \in {"out", "err", "buf"}, t \in {"", "x", "a b"}}
Fns == {F(c, "") : c \in DOMAIN Colors \ {"Default"}} \cup {F(s, "") : s \in DOMAIN Styles} \cup {F(f, c) : f \in {"Color", "Background"}, c \in DOMAIN Colors \cup {"red", "Pink"}}
       \cup {F("Style", s) : s \in DOMAIN Styles \cup {"", "Bold Underline", "Italic  Faint Bold", "Bold Nope", "Blink Blink"}}
Pieces == {PcF("pipe", t, <<f>>) : t \in {"", "x"}, f \in Fns} \cup {PcF(k, "", <<f>>) : k \in {"bare", "ints"}, f \in Fns} \cup {PcF("bare", "", <<F(f, "")>>) : f \in {"Reset", "ResetColor"}}
          \cup {PcF("pipe", "x", <<f, g>>) : f \in {Bold, F("Red", ""), F("Style", "Nope"), F("Color", "Default")}, g \in {Bold, F("Underline", ""), F("Background", "Blue")}}
          \cup {Pc("emoji", e) : e \in Emoji \cup {"", "Nope"}} \cup {[Pc("first", "") EXCEPT !.items = i] : i \in {<<>>, <<"a">>, <<"a", "b">>, <<"", "b", "c">>}} \cup {Pc("text", "y")}
Ones == \/ \E o \in Singles, on \in BOOLEAN : ColorInit([Base EXCEPT !.out = "cli", !.before = IF on THEN <<"on">> ELSE <<>>, !.ops = <<o>>])
        \/ \E p \in Pieces, on \in BOOLEAN, fe \in {<<>>, <<"flag">>, <<"funcs">>} :
             ColorInit([Base EXCEPT !.before = IF on THEN <<"on">> ELSE <<>>, !.feats = fe, !.ops = <<Rend(<<Pc("text", "<"), p, Pc("text", ">")>>)>>])
GenInit == Detects \/ Seqs(Ops, IF Max > 3 THEN 3 ELSE 2) \/ (IF Max > 3 THEN Seqs(Few, 4) ELSE Seqs(Few, 3)) \/ Ones
Emit == /\ pc = "done" /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, cap, text, bufs, results, res>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
