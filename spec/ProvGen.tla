------------------------------ MODULE ProvGen ------------------------------
(* Every arrangement of a provider's flags and registry with every short     *)
(* sequence of their uses; sequences of what a registry makes; factories.    *)
EXTENDS Prov, Json
CONSTANT Max

GenScen(x) == x
P(n, defs, kind) == [name |-> n, defs |-> defs, kind |-> kind]
Base == [op |-> "app", provs |-> <<P("csv", << <<"a", "1">>, <<"b", "">> >>, "func"), P("json", <<>>, "fail"), P("raw", <<>>, "value")>>,
         allow |-> FALSE, reg |-> "app", home |-> "app", run |-> "app", el |-> "flag", aux |-> "set", order |-> <<"p", "a", "l">>,
         split |-> FALSE, preset |-> "", toks |-> <<>>, calls |-> <<>>, sig |-> "", strict |-> FALSE, opts |-> <<>>]
Tok(f, n, items) == [f |-> f, name |-> n, items |-> items]
I1 == << <<"a", "2">> >>
I2 == << <<"a", "x,b=3">> >>
I3 == << <<"zz", "1">> >>
I4 == << <<"b", "y">>, <<"a", "">> >>
Toks == {Tok("p", n, i) : n \in {"csv", "json", "raw", "other"}, i \in {<<>>, I1, I3}} \cup {Tok("a", "", i) : i \in {I1, I2, I3, I4}}
        \cup {Tok("l", "", <<>>), Tok("p", "csv", I4), Tok("p", "csv", I2)}
Few == {Tok("p", "csv", <<>>), Tok("p", "csv", I1), Tok("p", "other", I3), Tok("p", "raw", <<>>), Tok("a", "", I4), Tok("a", "", I3), Tok("l", "", <<>>)}
(* a further use of p has items; the arg is used once *)
Fine(s, ts) ==
  /\ \A i \in 1..Len(ts) : \A j \in 1..(i - 1) :
       /\ ~(ts[i].f = "l" /\ ts[j].f = "l")
       /\ ts[i].f = "p" /\ ts[j].f = "p" => ts[i].items # <<>> /\ ts[i].name = ts[j].name /\ s.el = "flag"
  /\ s.split => /\ \E i \in 1..Len(ts) : ts[i].f = "p"
                /\ \A i \in 1..Len(ts) : ts[i].items \notin {I2}
Apps(set, n, k) ==
  \E m \in 0..n, reg \in {"app", "sub", "flag", "none", "other"}, home \in {"app", "sub"}, run \in {"app", "sub"},
     el \in {"flag", "arg"}, al \in BOOLEAN, pre \in {"", "csv", "other"}, split \in BOOLEAN :
   \E form \in {<<"set", <<"p", "a", "l">>>>, <<"set", <<"l", "a", "p">>>>, <<"set", <<"a", "p", "l">>>>, <<"acc", <<"p", "l", "a">>>>} :
    \E ts \in [1..m -> set] :
      LET s == [Base EXCEPT !.reg = reg, !.home = home, !.run = run, !.el = el, !.allow = al, !.preset = pre, !.split = split,
                            !.aux = form[1], !.order = form[2], !.toks = ts]
          odd == (IF al THEN 1 ELSE 0) + (IF pre # "" THEN 1 ELSE 0) + (IF split THEN 1 ELSE 0) + (IF el = "arg" THEN 1 ELSE 0)
                 + (IF reg # home THEN 1 ELSE 0) + (IF run # home THEN 1 ELSE 0) + (IF form[2][1] # "p" THEN 1 ELSE 0)
      IN /\ odd <= k
         /\ home = "sub" => run = "sub"
         /\ el = "arg" => home = "sub" /\ run = "sub"
         /\ reg = "sub" => home = "sub"
         /\ Fine(s, ts)
         /\ ProvInit(s)
Opts == {<<>>, << <<"a", "9">> >>, << <<"changed", "no">> >>, << <<"a", "">>, <<"zz", "x">> >>}
News ==
  \E m \in 1..3 : \E cs \in [1..m -> [name : {"csv", "json", "raw", "other"}, opts : Opts]] :
    (Max > 2 \/ m < 3) /\ ProvInit([Base EXCEPT !.op = "new", !.calls = cs])
Facs ==
  \E sig \in {"one", "two", "err", "string", "map"}, strict \in BOOLEAN, a \in {"", "1", "x"}, b \in {"", "B", "b"}, n \in {"", "1", "23", "x"}, e \in BOOLEAN :
    /\ strict => sig # "map" /\ n = ""
    /\ ProvInit([Base EXCEPT !.op = "fac", !.provs = <<>>, !.sig = sig, !.strict = strict,
         !.opts = (IF a = "" THEN <<>> ELSE << <<"A", a>> >>) \o (IF b = "B" THEN << <<"B", "x">> >> ELSE <<>>) \o (IF e THEN << <<"Extra", "1">> >> ELSE <<>>)
                  \o (IF n = "" THEN <<>> ELSE << <<"N", n>> >>) \o (IF b = "b" THEN << <<"b", "a b">> >> ELSE <<>>)])
GenInit == Apps(Toks, 1, 3) \/ Apps(Toks, 2, IF Max > 2 THEN 2 ELSE 1) \/ (IF Max > 2 THEN Apps(Few, 3, 2) ELSE FALSE) \/ News \/ Facs
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, name, named, args, res, out, calls>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
