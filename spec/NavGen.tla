------------------------------ MODULE NavGen ------------------------------
(* Every question at every place of the small programs.                     *)
EXTENDS Nav, Json
CONSTANT Deep
VARIABLE judged

GenScen(x) == x
E(kd, n, al, par) == [k |-> kd, name |-> n, al |-> al, par |-> par]
FlagSets == {<<>>, <<<<"f", <<"foo">>>>>>, <<<<"g", <<"f">>>>>>, <<<<"foo", <<"g">>>>>>} \cup (IF Deep < 3 THEN {<<<<"f", <<>>>>, <<"g", <<>>>>>>} ELSE {})
ArgSets == {<<>>, <<"a">>, <<"a", "b">>, <<"f", "a">>}
\* a chain of commands, each with its flags, the last with its args; another command beside the second
Elements(n, fs, as) ==
  LET cmds == [i \in 1..n |-> E("cmd", <<"app", "s", "t">>[i], IF i = 2 THEN <<"z">> ELSE <<>>, i - 1)]
      side == IF n > 1 THEN <<E("cmd", "u", <<"t">>, 1)>> ELSE <<>>
      fl == FlattenSeq([i \in 1..n |-> [j \in 1..Len(fs[i]) |-> E("flag", fs[i][j][1], fs[i][j][2], i)]])
      ar == [i \in 1..Len(as) |-> E("arg", as[i], <<>>, n)]
  IN  cmds \o side \o fl \o ar

Plain == <<"path", "name", "lineage", "parent", "root", "near", "kind", "app", "flags", "lflags", "pflags", "names", "pathkind">>
ByName == [q \in {"flag", "arg", "cmd", "cmdflag", "cmdarg", "cmdcmd", "appflag", "apparg", "appcmd", "ctxname", "seen"} |->
             CASE q \in {"flag", "cmdflag", "appflag"} -> <<"f", "foo", "-g">>
               [] q \in {"arg", "cmdarg", "apparg"} -> <<"a", "f", "<b>">>
               [] q \in {"cmd", "cmdcmd", "appcmd"} -> <<"t", "z", "nope">>
               [] OTHER -> <<"a", "f", "g">>]
ByRune == [q \in {"rune", "argrune", "ctxrune", "seenrune"} |-> <<"f", "a">>]
ByIndex == [q \in {"index", "cmdindex", "ctxindex"} |-> <<0, 1, -1, -2>>]
Q(e, st, q, n, i) == [at |-> e, stage |-> st, q |-> q, n |-> n, i |-> i]
NameQs == <<"flag", "arg", "cmd", "cmdflag", "cmdarg", "cmdcmd", "appflag", "apparg", "appcmd", "ctxname", "seen">>
RuneQs == <<"rune", "argrune", "ctxrune", "seenrune">>
Questions(s, e, st) ==
  LET cmd == IsCmd(s, e)
      leaf == \A j \in 1..Len(s.els) : ~(s.els[j].k = "cmd" /\ s.els[j].par = CmdOf(s, e))
      \* not before there are values
      early == st = "uses"
      ok(q) == (q \in {"seen", "seenrune"} => ~early)
      each(qs, tbl) == FlattenSeq([i \in 1..Len(qs) |-> IF ok(qs[i]) THEN [j \in 1..Len(tbl[qs[i]]) |-> Q(e, st, qs[i], tbl[qs[i]][j], 0)] ELSE <<>>])
  IN  [i \in 1..Len(Plain) |-> Q(e, st, Plain[i], "", 0)]
      \o each(NameQs, ByName) \o each(RuneQs, ByRune)
      \o (IF leaf THEN FlattenSeq([i \in 1..4 |-> <<Q(e, st, "ctxindex", "", ByIndex["index"][i]), Q(e, st, "cmdindex", "", ByIndex["index"][i])>>
                                                  \o (IF cmd THEN <<Q(e, st, "index", "", ByIndex["index"][i])>> ELSE <<>>)]) ELSE <<>>)
      \o (IF cmd THEN <<Q(e, st, "largs", "", 0)>> \o (IF leaf /\ ~early THEN <<Q(e, st, "values", "", 0)>> ELSE <<>>)
                      \o (IF early THEN <<>> ELSE <<Q(e, st, "args", "", 0)>>) ELSE <<>>)
      \o FlattenSeq([j \in 1..Len(s.els) |-> <<Q(e, st, "ptr", "", j)>> \o (IF ~cmd /\ IsCmd(s, j) THEN <<>> ELSE <<Q(e, st, "ctxptr", "", j)>>)])

Base1(n, fs, as, p, all) ==
  LET els == Elements(n, fs, as)
      on == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : els[i].k = "flag" /\ els[i].par <= p)
  IN  [els |-> els, path |-> [i \in 1..p |-> i], used |-> IF all THEN on ELSE <<>>, qs |-> <<>>]
Asking(s, st) == [s EXCEPT !.qs = FlattenSeq([e \in 1..Len(s.els) |-> IF Runs(s, e, st) THEN Questions(s, e, st) ELSE <<>>])]
GenInit ==
  /\ judged = FALSE
  /\ \E n \in 1..Deep : \E fs \in [1..n -> FlagSets], as \in ArgSets, p \in 1..n, all \in BOOLEAN, st \in {"uses", "before", "action", "after"} :
       /\ \A i \in 1..Len(fs[n]) : Range(as) \cap ({fs[n][i][1]} \cup Range(fs[n][i][2])) = {}  \* names differ
       /\ NavInit(Asking(Base1(n, fs, as, p, all), st))
Emit == /\ Done /\ ~judged /\ judged' = TRUE
        /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ UNCHANGED vars
GenNext == (Step /\ UNCHANGED judged) \/ Emit
GenSpec == GenInit /\ [][GenNext]_<<vars, judged>>
=============================================================================
