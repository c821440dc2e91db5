------------------------------ MODULE PipeGen ------------------------------
(* Every small action program, enumerated from Pipe. *)
EXTENDS Pipe, Json
CONSTANTS Deep

GenScen(x) == x
N(o, id, xs) == [o |-> o, id |-> id, xs |-> xs, form |-> 0]
L(id) == N("log", id, <<>>)
MwKinds == {"before", "after", "around", "wrap", "skip", "wrapdrop", "failfirst", "wrapnil", "swallow", "replace", "fail", "twice"}
Leaf(id) == {L(id), N("err", id, <<>>)} \cup {N("mw." \o k, id, <<>>) : k \in MwKinds}
Short(id) == {L(id), N("err", id, <<>>), N("mw.around", id, <<>>), N("mw.skip", id, <<>>), N("mw.replace", id, <<>>)}
Pairs(id, S(_)) == {<<x, y>> : x \in S(id \o "1"), y \in S(id \o "2")}
Group(id, S(_)) ==
  {N(o, id, p) : o \in {"pipe", "lit"}, p \in Pairs(id, S)}
Un(id, S(_)) == {N(o, id, <<x>>) : o \in {"ift", "iff", "ifnil", "assertt", "assertf", "supp", "dox"}, x \in S(id \o "1")}
ShortG(id) == Group(id, Short)
Ext(id) ==
  {N(o, id, <<b, x, y>>) : o \in {"append", "prepend"}, b \in {N("pipe", "", <<L(id \o "b")>>), N("lit", "", <<L(id \o "b"), N("mw.around", id \o "c", <<>>)>>)},
                            x \in Short(id \o "1"), y \in Short(id \o "2")}
  \cup {N(o, id, <<b, x, L(id \o "no")>>) : o \in {"fork", "forkpre"},
          b \in {N("pipe", "", <<L(id \o "b")>>), N("pipe", "", <<N("pipe", "", <<L(id \o "b"), L(id \o "c")>>), L(id \o "d")>>),
                 N("lit", "", <<L(id \o "b"), L(id \o "c"), L(id \o "d")>>)},
          x \in Short(id \o "1")}
Third(id) == Leaf(id) \cup ShortG(id) \cup Un(id, Short) \cup Ext(id) \cup {N("nil", "", <<>>)}
(* The choices are made one after the other, so that TLC never has to sort a set of programs. *)
Start1(p, d, a) == PipeInit([place |-> p, defs |-> d, act |-> a])
InLists(o) ==
  \/ \E x \in Leaf("a"), y \in Third("b"), z \in {L("c"), N("err", "c", <<>>)} : Start1("do", <<>>, N(o, "", <<x, y, z>>))
  \/ \E x \in ShortG("a"), y \in ShortG("b") : Start1("do", <<>>, N(o, "", <<x, y>>))
  \/ \E x \in Short("a"), g \in UNION {Group("b", Leaf), Ext("b")} : Start1("do", <<>>, N(o, "", <<x, N("ift", "", <<g>>), L("z")>>))
DefSets == {<<>>} \cup {<<x>> : x \in Leaf("d")} \cup {<<x, y>> : x \in Short("d"), y \in Short("e")}
           \cup {<<N("pipe", "", <<x, y>>), z>> : x \in Short("d"), y \in Short("e"), z \in Short("f")}
Acts == Leaf("a") \cup {N("pipe", "", <<x, L("b")>>) : x \in Short("a")} \cup {N("lit", "", <<L("b"), x>>) : x \in Short("a")}
InPlace ==
  \/ \E p \in {"cmd", "flag"}, d \in DefSets, a \in Acts : Start1(p, d, a)
  \/ \E p \in {"before", "after", "fbefore", "arg"}, a \in Leaf("a") \cup ShortG("a") \cup Un("a", Short) : Start1(p, <<>>, a)
InDepth ==
  \/ \E o \in {"pipe", "lit"}, x \in Leaf("a"), y \in Third("b"), z \in Leaf("c") : Start1("do", <<>>, N(o, "", <<x, y, z>>))
  \/ \E x \in Short("a"), g \in Group("b", Leaf), y \in Short("c") : Start1("do", <<>>, N("lit", "", <<N("pipe", "", <<x, g>>), y>>))
  \/ \E d \in DefSets, a \in ShortG("a") : Start1("cmd", d, a)
GenInit == InLists("pipe") \/ InLists("lit") \/ InPlace \/ (Deep /\ InDepth)
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ ret' = "judged" /\ UNCHANGED <<sid, st, out>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
