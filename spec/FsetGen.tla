------------------------------ MODULE FsetGen ------------------------------
(* Every small tree with every short list of names, fault and way to stop. *)
EXTENDS Fset, Json
CONSTANT Max

GenScen(x) == x
Base == [kind |-> "stat", tree |-> <<>>, faults |-> <<>>, names |-> <<>>, src |-> "field", lines |-> <<>>, nl |-> "lf", own |-> FALSE,
         rec |-> "no", must |-> FALSE, mode |-> "do", stop |-> 0, stdin |-> ""]
N(p, k) == IF k = "-" THEN <<>> ELSE << [p |-> p, k |-> k, t |-> IF k = "f" THEN "text" ELSE ""] >>
K == {"-", "f", "d"}
Where == {<<>>, <<"a">>, <<"b">>, <<"a", "a">>, <<"zz">>}
Faults == {<<o>> \o p : o \in {"stat", "open", "readdir"}, p \in {<<>>, <<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>}}
Walks ==
  \E a \in K, b \in K, aa \in K, ab \in K, aaa \in K :
    /\ a # "d" => aa = "-" /\ ab = "-"
    /\ aa # "d" => aaa = "-"
    /\ \E n \in 0..2, nf \in 0..(Max - 1), kind \in {"stat", "plain", "dir"}, rec \in {"no", "field"}, mode \in {"do", "all"}, stop \in 0..3 :
       /\ kind = "dir" => nf = 0
       /\ nf = 2 => n = 1 /\ stop = 0 /\ kind # "dir" /\ rec = "field"
       /\ n = 2 => nf = 0 \/ (Max > 2 /\ kind = "stat" /\ stop = 0)
       /\ rec = "no" => stop < 2 /\ ab = "-" /\ aaa = "-"
       /\ \E names \in [1..n -> Where], faults \in [1..nf -> Faults] :
          FsetInit([Base EXCEPT !.kind = kind, !.tree = N(<<"a">>, a) \o N(<<"b">>, b) \o N(<<"a", "a">>, aa) \o N(<<"a", "b">>, ab) \o N(<<"a", "a", "a">>, aaa),
                      !.names = names, !.faults = faults, !.rec = rec, !.mode = mode, !.stop = stop])
Line(l) == [lead |-> l[1], t |-> l[2], end |-> l[3]]
Ls == {<<0, "a", 0>>, <<1, "b/c", 1>>, <<0, "", 0>>, <<2, "", 0>>, <<0, "#a", 0>>, <<1, ";b", 0>>, <<0, "a#b", 1>>, <<0, "a b", 0>>, <<0, ".", 0>>}
Lists ==
  \E n \in 0..Max, src \in {"data", "ref"}, nl \in {"lf", "crlf"}, must \in BOOLEAN :
    /\ must => src = "ref"
    /\ \E ls \in [1..n -> Ls], cut \in 0..n :
       FsetInit([Base EXCEPT !.src = src, !.nl = nl, !.must = must, !.tree = N(<<"a">>, "f"),
         !.lines = << [i \in 1..cut |-> Line(ls[i])] >> \o (IF cut = n THEN <<>> ELSE << [i \in 1..(n - cut) |-> Line(ls[cut + i])] >>)])
Others ==
  \E n \in 0..2, kind \in {"sys", "app", "map", "dir", "stat"}, src \in {"args", "field"}, rec \in {"no", "field", "flag"}, must \in BOOLEAN, own \in BOOLEAN, stop \in 0..1 :
    /\ own => kind # "app" /\ kind # "sys"
    /\ must => src = "args"
    /\ \E names \in [1..n -> {<<"-">>, <<"a">>, <<"d">>, <<"zz">>, <<>>}] :
       FsetInit([Base EXCEPT !.kind = kind, !.src = src, !.rec = rec, !.must = must, !.own = own, !.stop = stop, !.names = names, !.stdin = "in",
         !.mode = IF must THEN "all" ELSE "do", !.tree = N(<<"a">>, "f") \o N(<<"d">>, "d") \o N(<<"d", "a">>, "f")])
GenInit == Walks \/ Lists \/ Others
Emit == /\ Done /\ (IF pc = "unspecified" THEN TRUE ELSE PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>))
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, stack, visits, input, res>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
