------------------------------ MODULE MetaGen ------------------------------
(* Every kind of element with few fields defined and every short sequence of *)
(* steps; every pair of accessories.                                         *)
EXTENDS Meta, Json
CONSTANT Max

GenScen(x) == x
None == [name |-> "", help |-> "", cat |-> "", man |-> "", use |-> "", desc |-> "", def |-> "", data |-> <<>>, al |-> <<>>, env |-> <<>>,
         file |-> "", hid |-> FALSE, val |-> "", comp |-> "", narg |-> 0]
S(k, at, v) == [k |-> k, at |-> at, pat |-> IF at = "cust" THEN "f" ELSE "", v |-> v, key |-> "", f |-> None, su |-> ""]
P(at, x, su) == [S("proto", at, "") EXCEPT !.f = x, !.su = su]
Scn == [op |-> "el", el |-> "flag", home |-> "app", init |-> [None EXCEPT !.name = "f"], steps |-> <<>>, prev |-> "", pdata |-> <<>>, hdata |-> <<>>, accs |-> <<>>]

Texts == {"help", "cat", "man", "use", "desc"}
One(v) == {[None EXCEPT ![t] = v] : t \in Texts \cup {"def", "file", "comp"}}
          \cup {[None EXCEPT !.al = <<"a1">>], [None EXCEPT !.al = <<"a2", "a3">>], [None EXCEPT !.env = <<"E1">>], [None EXCEPT !.env = <<"E0", "E2">>],
                [None EXCEPT !.hid = TRUE], [None EXCEPT !.val = "int"], [None EXCEPT !.val = "bool"], [None EXCEPT !.name = "pn"], None}
Full(v) == [None EXCEPT !.help = v, !.cat = v, !.man = v, !.use = v, !.desc = v, !.def = v, !.comp = v, !.al = <<"a2">>, !.env = <<"E3">>, !.val = "string", !.file = v]
InitFor(el, i) == [i EXCEPT !.name = IF el = "value" THEN "" ELSE "f",
                     !.def = IF el = "cmd" THEN "" ELSE @, !.al = IF el = "arg" THEN <<>> ELSE @,
                     !.env = IF el = "cmd" THEN <<>> ELSE @, !.val = IF el = "cmd" THEN "" ELSE @, !.file = IF el = "cmd" THEN "" ELSE @]
Els == {"flag", "arg", "cmd"}
(* a prototype over a definition, and over another prototype, directly, by customization or with its own set-up *)
Protos ==
  \E el \in Els, home \in {"app", "sub"}, i \in One("i") \cup {Full("i")}, p \in One("p") \cup {Full("p"), [None EXCEPT !.data = << <<"k2", "p">> >>]},
     q \in {None, Full("q"), [None EXCEPT !.data = << <<"k3", "q">> >>]}, nil \in BOOLEAN, how \in {"uses", "cust", "su"} :
    /\ how = "cust" => p.name = "" /\ p.env = <<>> /\ p.val = "" /\ p.file = "" /\ ~p.hid
    /\ Max > 2 \/ home = "app" \/ how # "su" 
    /\ MetaInit([Scn EXCEPT !.el = el, !.home = home, !.init = [InitFor(el, i) EXCEPT !.data = IF nil THEN <<>> ELSE << <<"k1", "i">> >>],
         !.steps = <<P(IF how = "cust" THEN "cust" ELSE "uses", p, IF how = "su" THEN "s" ELSE "")>> \o (IF q = None THEN <<>> ELSE <<P("uses", q, "")>>)])
(* two prototypes of a value or of how many values there are, and a value that was read in between *)
Types ==
  \E el \in {"flag", "arg"}, i, p, q \in {"", "int", "bool", "string"}, at \in 0..3, e \in {<<>>, <<"E1">>} :
    LET one(v) == P("uses", [None EXCEPT !.val = v, !.env = e], "")
        t == <<S("touch", "uses", "")>>
        ps == <<one(p), one(q)>>
    IN MetaInit([Scn EXCEPT !.el = el, !.init = [InitFor(el, None) EXCEPT !.val = i],
         !.steps = IF at = 3 THEN ps ELSE SubSeq(ps, 1, at) \o t \o SubSeq(ps, at + 1, 2)])
Counts ==
  \E i, p, q \in {0, -1, -2}, v \in {"", "string"}, e \in {<<>>, <<"E1">>}, home \in {"app", "sub"} :
    LET one(n) == P("uses", [None EXCEPT !.narg = n, !.val = v, !.env = e], "")
    IN MetaInit([Scn EXCEPT !.el = "arg", !.home = home, !.init = [InitFor("arg", None) EXCEPT !.narg = i], !.steps = <<one(p), one(q)>>])
(* elements with no name, or another one *)
Renames ==
  \E el \in {"flag", "arg"}, n \in {"", "f", "nn"}, p \in {"", "pn"}, m \in {"", "nn", "q"}, pat \in {"f", "nn", "pn", "q", "*"}, c \in {"help", "data", "cat"}, fst \in BOOLEAN :
    LET ps == IF p = "" THEN <<>> ELSE <<P("uses", [None EXCEPT !.name = p], "")>>
        ms == IF m = "" THEN <<>> ELSE <<S("name", "uses", m)>>
    IN MetaInit([Scn EXCEPT !.el = el, !.init = [None EXCEPT !.name = n],
         !.steps = <<[S(c, "cust", "c") EXCEPT !.pat = pat, !.key = IF c = "data" THEN "k1" ELSE ""], S(IF c = "data" THEN "man" ELSE c, "uses", "u")>>
                   \o (IF fst THEN ps \o ms ELSE ms \o ps)])
(* setters, aliases and metadata in every order *)
Sets == {S("help", a, "h" \o a) : a \in {"uses", "cust", "before"}} \cup {[S("data", a, "d" \o a) EXCEPT !.key = k] : a \in {"uses", "cust", "before"}, k \in {"k1", "k2"}}
        \cup {[S("undata", a, "") EXCEPT !.key = "k1"] : a \in {"uses", "before"}}
        \cup {[S("alias", a, v) EXCEPT !.key = k] : a \in {"uses", "cust"}, v \in {"a1"}, k \in {"add", ""}}
        \cup {S("unalias", "uses", v) : v \in {"a1", "a2"}}
        \cup {S(k, a, k \o a) : k \in {"fsetup", "asetup", "csetup"}, a \in {"uses", "before"}} \cup {S("prevent", "uses", "")}
        \cup {S(k, "uses", k) : k \in {"cat", "man", "use", "desc"}} \cup {P("uses", [None EXCEPT !.al = <<"a1">>, !.data = << <<"k3", "p">> >>], "")}
SetOk(el, ss, pv) ==
  /\ \A i, j \in 1..Len(ss) : (i # j /\ ss[i].k = "proto" /\ ss[j].k = "proto") => FALSE
  /\ (\E i \in 1..Len(ss) : ss[i].k = "proto") => el = "cmd" \/ (pv = "" /\ \A i \in 1..Len(ss) : ss[i].k # "prevent")
Setters ==
  \E el \in Els, n \in 1..(IF Max > 2 THEN 3 ELSE 2) : \E ss \in [1..n -> Sets], pv \in {"", "own", "parent"}, d \in BOOLEAN :
    /\ SetOk(el, ss, pv)
    /\ (n = 3 => pv = "" /\ d) /\ (n = 2 /\ pv # "" => \E i \in 1..2 : ss[i].k \in {"fsetup", "asetup", "csetup"})
    /\ MetaInit([Scn EXCEPT !.el = el, !.steps = ss, !.prev = pv, !.home = IF d THEN "sub" ELSE "app",
         !.init = [None EXCEPT !.name = "f", !.data = IF d THEN << <<"k1", "i">> >> ELSE <<>>, !.al = IF d /\ el # "arg" THEN <<"a2", "a1">> ELSE <<>>],
         !.pdata = << <<"k1", "up">>, <<"k4", "up">> >>, !.hdata = IF d THEN << <<"k4", "home">> >> ELSE <<>>])
(* values *)
ValSets == {S(k, "uses", k) : k \in Texts \cup {"name"}} \cup {[S("data", "uses", "d") EXCEPT !.key = k] : k \in {"k1", "k2"}} \cup {[S("undata", "uses", "") EXCEPT !.key = "k1"]}
Values ==
  \E n \in 0..2 : \E ss \in [1..n -> ValSets], t \in Texts \cup {"", "def"}, more \in {"", "al", "data", "hid", "su"}, at \in 0..2 :
    /\ at <= n
    /\ \A i \in 1..at : ss[i].k # t
    /\ LET x == IF t = "" THEN None ELSE [None EXCEPT ![t] = "p"]
           g == CASE more = "al" -> [x EXCEPT !.al = <<"a1", "a2">>] [] more = "data" -> [x EXCEPT !.data = << <<"k3", "p">> >>]
                  [] more = "hid" -> [x EXCEPT !.hid = TRUE] [] OTHER -> x
       IN MetaInit([Scn EXCEPT !.el = "value", !.init = None,
            !.steps = SubSeq(ss, 1, at) \o <<P("uses", g, IF more = "su" THEN "s" ELSE "")>> \o SubSeq(ss, at + 1, n)])
Acc == [name : {"", "-", "given", "g"}, fn : BOOLEAN, pname : {"", "rec", "r"}, pcat : {"", "P"}, extra : {"", "name", "cat"}, late : BOOLEAN]
AccOk(a) == /\ (~a.fn => a.pname = "" /\ a.pcat = "") /\ (a.late => a.extra = "" /\ a.pcat = "")
            /\ (a.name = "-" /\ a.pname = "" => a.extra = "name")
Accs == {a \in Acc : AccOk(a)}
FewAcc == {a \in Accs : ~a.late /\ a.fn /\ a.pcat = "" /\ a.extra # "cat"}
Accessories ==
  \E el \in {"flag", "arg"}, home \in {"app", "sub"}, n \in {"files", "f", "in-put"}, c \in {"", "C"} :
    \/ \E a \in Accs : MetaInit([Scn EXCEPT !.op = "acc", !.el = el, !.home = home, !.init = [None EXCEPT !.name = n, !.cat = c], !.accs = <<a>>])
    \/ \E a, b \in FewAcc : n = "files" /\ c = "C" /\ MetaInit([Scn EXCEPT !.op = "acc", !.el = el, !.home = home, !.init = [None EXCEPT !.name = n, !.cat = c], !.accs = <<a, b>>])
GenInit == Protos \/ Types \/ Counts \/ Renames \/ Setters \/ Values \/ Accessories
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, f, prev, first, cmd, flags, res, obs>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
