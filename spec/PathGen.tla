------------------------------ MODULE PathGen ------------------------------
(* Every short pattern against every short path, and one command tree with   *)
(* every pattern and filter attached at every place.                         *)
EXTENDS Path, Json
CONSTANTS Len1, Wide

GenScen(x) == x
Names == {"a", "sub", "-a", "--sub", "<a>", "<-a>"}
Wild == {"*", "-", "--", "<>", "<->"}
Pats == Names \cup Wild \cup {"-sub", "--a"}
NoTree == [op |-> "match", pat |-> "", path |-> <<>>]
Matches ==
  \E n \in 0..Len1 : \E p \in [1..n -> Pats] : \E m \in 1..Len1 : \E q \in [1..m -> Names] :
    PathInit([NoTree EXCEPT !.pat = JoinStr(p, " "), !.path = q])

El(k, up, nm, to) == [k |-> k, up |-> up, name |-> nm, to |-> to]
Tree(fto, ato, cto) ==
  << El("cmd", 0, "app", ""), El("flag", 1, "long", fto), El("val", 1, "v", ""),
     El("cmd", 1, "sub", ""), El("flag", 4, "f", ""), El("val", 5, "v", ""), El("arg", 4, "a", ato), El("val", 7, "w", ""),
     El("cmd", 1, "x", cto), El("flag", 9, "long", "") >>
Base == [op |-> "tree", els |-> Tree("", "", ""), regs |-> <<>>, run |-> 4, given |-> <<5>>, finds |-> <<>>,
         walk |-> [from |-> 1, skip |-> <<>>, stop |-> 0]]
Hook(el, t, p, to) == [el |-> el, via |-> "hook", t |-> t, pat |-> p, modes |-> <<>>, to |-> to]
If(el, t, p, ms) == [el |-> el, via |-> "if", t |-> t, pat |-> p, modes |-> ms, to |-> ""]
P1 == {"", " ", "*", "-", "--", "<>", "<->", "app", "sub", "x", "--long", "-long", "-f", "--f", "f", "<a>", "a", "<-v>", "<v>", "<-w>"}
P2 == {"app", "sub", "*", "-", "<>", "-long", "-f", "<a>"}
T3 == {"init", "before", "after"}
Hooked ==
  \/ \E el \in {1, 2, 4, 5, 7, 9}, t \in T3, p \in P1, run \in {1, 4, 9} :
       PathInit([Base EXCEPT !.regs = <<Hook(el, t, p, "")>>, !.run = run, !.given = <<>>])
  \/ \E el \in {1, 4}, t \in T3, p \in P2, q \in P1 : PathInit([Base EXCEPT !.regs = <<Hook(el, t, p \o " " \o q, "")>>])
  \/ Wide /\ \E el \in {1, 4}, t \in T3, p \in P2, q \in P1, r \in P1 :
       PathInit([Base EXCEPT !.regs = <<Hook(el, t, p \o " " \o q \o " " \o r, "")>>])
Kinds == {<<>>, <<"flag">>, <<"arg">>, <<"command">>, <<"anything">>}
Filtered ==
  \/ \E el \in 1..10, t \in T3, k \in Kinds, s \in BOOLEAN, r \in BOOLEAN, v \in BOOLEAN, g \in {<<>>, <<2>>, <<5>>, <<2, 5, 7>>} :
       LET ms == k \o (IF s THEN <<"seen">> ELSE <<>>) \o (IF r THEN <<"root">> ELSE <<>>) \o (IF v THEN <<"value">> ELSE <<>>)
       IN ms # <<>> /\ PathInit([Base EXCEPT !.regs = <<If(el, t, "", ms)>>, !.given = g])
  \/ \E el \in 1..10, t \in T3, p \in P1 : PathInit([Base EXCEPT !.regs = <<If(el, t, p, <<>>)>>])
Renamed ==
  \/ \E which \in {"f", "a", "c"}, p \in {"--long", "--new", "-new", "x", "new", "<a>", "<new>", "-", "<>", "*", "x --long", "new -long", "app new", "<new> <->", "-a"},
       el \in {1, 4, 9}, run \in {1, 9} :
       PathInit([Base EXCEPT !.els = Tree(IF which = "f" THEN "new" ELSE "", IF which = "a" THEN "new" ELSE "", IF which = "c" THEN "new" ELSE ""),
                             !.regs = <<Hook(el, "init", p, "")>>, !.run = 1, !.given = <<>>])
  \/ \E from \in {"app --long", "x", "<a>"}, at \in 1..2, p \in {"--long", "--new", "-new", "x", "new", "<a>", "<new>", "-", "<>", "*"}, t \in T3 :
       LET a == Hook(1, "init", from, "new")  b == Hook(1, t, p, "") IN
       PathInit([Base EXCEPT !.regs = (IF at = 1 THEN <<a, b>> ELSE <<b, a>>), !.run = 1, !.given = <<>>])
OneDash(p) == IF StartsWith(p, "--") THEN Drop(p, 1) ELSE p
Asked ==
  \/ \E i \in 1..10, from \in {1, 4}, one \in BOOLEAN, bad \in {"", "zz", "--zz", "<zz>", "<-zz>"} :
       LET els == Tree("", "", "")
           lab(j) == CASE els[j].k = "cmd" -> els[j].name [] els[j].k = "flag" -> (IF els[j].name = "f" THEN "-f" ELSE "--long")
                       [] els[j].k = "arg" -> "<a>" [] OTHER -> "<-" \o els[j].name \o ">"
           up(j) == els[j].up
           p == (IF from = 1 THEN <<"app">> ELSE <<"sub">>)
                \o (IF i = from THEN <<>> ELSE IF up(i) = from THEN <<lab(i)>>
                    ELSE IF up(up(i)) = from THEN <<lab(up(i)), lab(i)>>
                    ELSE IF up(up(up(i))) = from THEN <<lab(up(up(i))), lab(up(i)), lab(i)>> ELSE <<"other">>)
           q == [n \in 1..Len(p) |-> IF one THEN OneDash(p[n]) ELSE p[n]]
       IN /\ i >= from /\ (from = 1 \/ i <= 8)
          /\ PathInit([Base EXCEPT !.finds = <<[from |-> from, path |-> (IF bad = "" THEN q ELSE Append(q, bad))], [from |-> from, path |-> <<>>]>>])
  \/ \E from \in {1, 4}, stop \in {0, 1, 4, 9}, a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN :
       PathInit([Base EXCEPT !.walk = [from |-> from, stop |-> stop,
         skip |-> (IF a THEN <<1>> ELSE <<>>) \o (IF b THEN <<4>> ELSE <<>>) \o (IF c THEN <<9>> ELSE <<>>)]])
GenInit == Matches \/ Hooked \/ Filtered \/ Renamed \/ Asked
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, agenda, name, log>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
