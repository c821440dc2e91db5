------------------------------ MODULE ValsGen ------------------------------
(* Every small history of one option, enumerated from Vals. *)
EXTENDS Vals, Json
CONSTANTS Group, MaxUses, Deep

GenScen(x) == x
Files == <<<<"a", "b">>, <<"d/c", "x,y">>, <<"e", "">>>>
Base == [kind |-> "str", tgt |-> "flag", name |-> "opt-x", init |-> <<>>, opts |-> <<>>, optv |-> <<>>, tr |-> <<>>, uses |-> <<>>,
         vars |-> <<>>, env |-> <<>>, file |-> "", fs |-> Files, uimp |-> <<>>, imp |-> <<>>, z |-> FALSE, zpre |-> TRUE, fail |-> 0]

Kinds == {"str", "list", "map", "nvs", "nv", "cust", "acc", "fset", "fil", "int", "bool", "bytes", "text", "none", "dur"}
Toks ==
  [str |-> {"a", "b,c", "", "x\\,y"}, none |-> {"a", "b"}, list |-> {"a", "b,c", "", "x\\,y", "p\\,q\\,r,s"},
   map |-> {"a=1", "a=2,b=3", "k\\=l=m", "a=1,t,b=2\\,3"}, nvs |-> {"a=1", "a=2,b=3", "novalue", "k\\=l=m,n=o\\,p"},
   nv |-> {"a=1", "k\\=l=m", "b="}, cust |-> {"a", "b+c", "bad"}, acc |-> {"a", "b+c", "bad"},
   fset |-> {"a", "d/c", "zz"}, fil |-> {"a", "zz"}, int |-> {"1", "0x10", "q"}, bool |-> {"false", "on", "q"},
   bytes |-> {"61", "6263", "zz"}, text |-> {"a", "bad"}, dur |-> {"1s", "1m", "q"}]
Inits ==
  [str |-> <<<<"i">>>>, none |-> <<>>, list |-> <<<<"i">>, <<"j">>>>, map |-> <<<<"a", "0">>, <<"z", "9">>>>, nvs |-> <<<<"a", "0">>>>,
   nv |-> <<<<"i", "j">>>>, cust |-> <<<<"i">>>>, acc |-> <<<<"i">>>>, fset |-> <<<<"e">>>>, fil |-> <<<<"a">>>>, int |-> <<<<"7">>>>,
   bool |-> <<<<"true">>>>, bytes |-> <<>>, text |-> <<<<"a">>>>, dur |-> <<<<"1m0s">>>>]
Copies == {"str", "list", "map", "nvs", "nv", "cust", "int", "bool", "bytes", "dur"}

U(v) == [v |-> v, eq |-> FALSE]
Eq(t) == [v |-> <<t>>, eq |-> TRUE]
\* the ways in which one use can be written
UsesOf(kind, tgt) ==
  CASE kind = "bool" -> {U(<<>>)} \cup {Eq(t) : t \in Toks[kind]}
    [] kind = "list" -> {U(<<t>>) : t \in Toks[kind]} \cup {U(<<"a", "b,c">>)}
    [] kind = "nv" -> {U(<<t>>) : t \in Toks[kind]} \cup {U(<<"n", "v">>)}
    [] OTHER -> {U(<<t>>) : t \in Toks[kind]}
Histories(kind, tgt, n) == UNION {[1..m -> UsesOf(kind, tgt)] : m \in 0..(IF kind = "nv" /\ tgt = "arg" THEN Min2(1, n) ELSE n)}
Few(kind) == CHOOSE S \in SUBSET Toks[kind] : Cardinality(S) = 2 /\ "q" \notin S /\ "bad" \notin S

Targets(kind) == IF kind \in {"bool", "none"} THEN {"flag"} ELSE {"flag", "arg"}
(* The choices are made one after the other, so that TLC never has to sort a set of scenarios. *)
InCombine ==
  \E kind \in Kinds : \E tgt \in Targets(kind), init \in {<<>>, Inits[kind]},
     opts \in {<<>>, <<"Merge">>, <<"DisableSplitting">>, <<"Merge", "DisableSplitting">>} :
    \E h \in Histories(kind, tgt, MaxUses) :
      ValsInit([Base EXCEPT !.kind = kind, !.tgt = tgt, !.init = init, !.opts = opts, !.uses = h])
InReading ==
  \E kind \in {"str", "list", "bytes", "fset", "cust"}, tgt \in {"flag", "arg"}, o \in {"FileReference", "AllowFileReference"} :
    \E h \in UNION {[1..m -> {U(<<t>>) : t \in {"a", "d/c", "@a", "@d/c", "@zz", "zz", "e"}}] : m \in 1..2} :
      ValsInit([Base EXCEPT !.kind = kind, !.tgt = tgt, !.init = Inits[kind], !.opts = <<o>>, !.uses = h])
InExists ==
  \E kind \in {"str", "fset", "fil"}, tgt \in {"flag", "arg"}, init \in {<<>>, <<<<"zz">>>>}, env \in {<<>>, <<<<"VE1", "zz">>>>} :
    \E h \in UNION {[1..m -> {U(<<t>>) : t \in {"a", "d", "zz"}}] : m \in 0..2} :
      ValsInit([Base EXCEPT !.kind = kind, !.tgt = tgt, !.init = init, !.opts = <<"MustExist">>, !.uses = h, !.env = env, !.vars = <<"VE1">>])

\* every combination of sources
Src(kind) == LET S == Toks[kind] IN {<<>>} \cup {<<t>> : t \in Few(kind)}
One(kind) == CHOOSE t \in Few(kind) : TRUE
OptOne(kind) == {<<>>, <<One(kind)>>}
InSources ==
  \E kind \in {"str", "list", "map", "int", "bool", "cust"} \cup (IF Deep THEN {"nvs", "fset", "nv", "dur"} ELSE {}) :
    \E tgt \in Targets(kind) \ (IF kind = "nv" THEN {"arg"} ELSE {}), nm \in IF Deep THEN {"opt-x", "ab"} ELSE {"opt-x"} :
    \E h \in {<<>>} \cup {<<u>> : u \in {CHOOSE u \in UsesOf(kind, tgt) : TRUE}} \cup (IF Deep THEN Histories(kind, tgt, 1) ELSE {}),
       e1 \in Src(kind) \cup {<<"">>}, e2 \in OptOne(kind), e3 \in OptOne(kind),
       f \in {"", "a", "zz"}, im \in {<<>>} \cup (IF tgt = "flag" THEN {<<One(kind)>>} ELSE {}), z \in {TRUE, FALSE},
       o \in {<<>>, <<"ImpliedAction">>} \cup (IF Deep THEN {<<"Merge">>} ELSE {}) :
      ValsInit([Base EXCEPT !.kind = kind, !.tgt = tgt, !.name = nm, !.init = Inits[kind], !.uses = h, !.opts = o,
         !.vars = <<"VE1", "P{}", "{}">>,
         !.env = (IF e1 = <<>> THEN <<>> ELSE <<<<"VE1", e1[1]>>>>) \o (IF e2 = <<>> THEN <<>> ELSE <<<<IF nm = "opt-x" THEN "P_OPT_X" ELSE "P_AB", e2[1]>>>>)
                 \o (IF e3 = <<>> THEN <<>> ELSE <<<<IF nm = "opt-x" THEN "OPT_X" ELSE "AB", e3[1]>>>>),
         !.file = f, !.fs = <<<<"a", One(kind)>>>>, !.imp = im, !.z = z])

InEach ==
  \E kind \in Copies : \E tgt \in Targets(kind), fail \in {0, 1, 2}, init \in {<<>>, Inits[kind]},
     opts \in {<<"EachOccurrence">>, <<"EachOccurrence", "Merge">>, <<"DisableSplitting", "EachOccurrence">>} :
    \E h \in Histories(kind, tgt, MaxUses) :
      ValsInit([Base EXCEPT !.kind = kind, !.tgt = tgt, !.init = init, !.opts = opts, !.uses = h, !.fail = fail])

\* what a transform makes of the uses; the last one set is in effect
TToks(kind, fn) ==
  IF kind \in {"nv", "nvs", "map"} THEN {"a=1", "k\\=l=@a", "@e=@d/c", "n", "b\\,c=x\\\\=y"} \cup (IF Deep THEN {"a=@zz", "=v", "a=bad"} ELSE {})
  ELSE {"a", "@a", "bad", "b,c"} \cup (IF kind = "bytes" THEN {"61"} ELSE {}) \cup (IF Deep THEN {"d/c", "@zz", "zz"} ELSE {})
TUses(kind, fn) == {U(<<t>>) : t \in TToks(kind, fn)} \cup (IF kind \in {"list", "fset"} THEN {U(<<"a", "@d/c">>)} ELSE {})
                   \cup (IF kind = "nv" THEN {U(<<"n", "@a">>), U(<<"k\\=l", "v">>)} ELSE {})
Whole1 == {"text", "data", "reader", "values", "file", "atfile"}
Part1 == {"vtext", "vreader", "vvalues", "vatfile", "vfile"}
InTransform ==
  \E kind \in {"str", "list", "bytes", "fset", "cust", "acc", "nv", "nvs", "map", "fil"}, tgt \in {"flag", "arg"} :
  \E fn \in IF kind \in {"nv", "nvs", "map"} THEN Part1 ELSE Whole1, before \in {<<>>, <<"text">>},
     opts \in {<<>>, <<"Merge">>, <<"EachOccurrence">>} \cup (IF Deep THEN {<<"DisableSplitting">>, <<"AllowFileReference">>} ELSE {}) :
    \E h \in UNION {[1..m -> TUses(kind, fn)] : m \in 0..2} :
      /\ ("EachOccurrence" \in Range(opts)) => kind \in Copies
      /\ kind = "nv" => (tgt = "flag" /\ \A i \in 1..Len(h) : h[i].v # <<"n">>)
      /\ ValsInit([Base EXCEPT !.kind = kind, !.tgt = tgt, !.init = Inits[kind], !.opts = opts, !.uses = h, !.tr = before \o <<fn>>])

GenInit ==
  \/ Group = "xform" /\ (InTransform \/ InReading)
  \/ Group = "combine" /\ (InCombine \/ InReading)
  \/ Group = "source" /\ InSources
  \/ Group = "each" /\ InEach
  \/ Group = "exist" /\ (InExists \/ InReading)
Emit ==
  /\ pc = "end" /\ pc' = "done"
  /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
  /\ UNCHANGED <<sid, k, val, cnt, impl, cur, acts, err>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
