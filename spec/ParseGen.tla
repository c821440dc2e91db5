------------------------------ MODULE ParseGen ------------------------------
(* Every command line up to MaxLen tokens over a small alphabet, for a set of *)
(* commands chosen so that each counter and each flag kind meets each other.  *)
EXTENDS Parse, Json
CONSTANT MaxLen

F(n, al, k) == [name |-> n, aliases |-> al, kind |-> k]
A(n, c) == [name |-> n, cnt |-> c]
Cmd(fs, as, rtl, dfa, sfp) == [flags |-> fs, args |-> as, rtl |-> rtl, dfa |-> dfa, sfp |-> sfp]
Fa == F("alpha", <<"a">>, "bool")
Fb == F("b", <<"beta">>, "str")
Fo == F("o", <<"opt">>, "opt")
Fl == F("list", <<"l">>, "list")

Cases == <<
 [cmd |-> Cmd(<<Fa, Fb>>, <<A("w", "str")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "-b", "-ab", "-ba", "--beta=p", "--", "p"}],
 [cmd |-> Cmd(<<Fo, Fl>>, <<A("w", "list")>>, FALSE, FALSE, FALSE),
  toks |-> {"-o", "-op", "--opt", "-l", "--", "p", "-"}],
 [cmd |-> Cmd(<<Fa>>, <<A("x", "n2"), A("y", "list")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "--", "p", "-", "-z"}],
 [cmd |-> Cmd(<<Fa, Fb>>, <<A("x", "m3"), A("y", "n1")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "-b", "--", "p", "-bq"}],
 [cmd |-> Cmd(<<Fb, Fa>>, <<A("x", "str"), A("y", "n0"), A("z", "n1")>>, TRUE, FALSE, FALSE),
  toks |-> {"-a", "-b", "--", "p", "q"}],
 [cmd |-> Cmd(<<Fb, Fa>>, <<A("x", "str"), A("y", "n2"), A("z", "list")>>, TRUE, FALSE, FALSE),
  toks |-> {"-a", "--beta", "--", "p", "q"}],
 [cmd |-> Cmd(<<Fa, Fb>>, <<A("x", "m2"), A("y", "str")>>, FALSE, TRUE, FALSE),
  toks |-> {"-a", "-b", "--", "p", "--zz"}],
 [cmd |-> Cmd(<<Fa>>, <<A("x", "n1"), A("y", "m1")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "--", "p", "-z", "--alpha"}],
 [cmd |-> Cmd(<<Fa, Fl>>, <<A("x", "o1"), A("y", "n0")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "--list", "--", "p", "q", "-la"}],
 [cmd |-> Cmd(<<Fa, Fo>>, <<A("x", "m2"), A("y", "m2")>>, FALSE, FALSE, TRUE),
  toks |-> {"-a", "-o", "--", "p"}],
 [cmd |-> Cmd(<<Fa, Fb, Fo>>, <<>>, FALSE, FALSE, FALSE),
  toks |-> {"-aob", "-a=", "-b=", "--opt=", "-oa", "p", ""}],
 [cmd |-> Cmd(<<Fa, F("x", <<"exec">>, "exec")>>, <<A("y", "exec"), A("z", "list")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "-x", "--", "p", ";", "+", "-x;"}],
 [cmd |-> Cmd(<<Fa, F("n", <<"nv">>, "nv")>>, <<A("y", "nv"), A("z", "n0")>>, FALSE, FALSE, FALSE),
  toks |-> {"-a", "-n", "--nv=p=q", "--", "p", "p=q", "-np"}] >>

GenInit == \E k \in 1..Len(Cases) : \E n \in 0..MaxLen :
             \E argv \in [1..n -> Cases[k].toks] :
                InitWith(Cases[k].cmd @@ [argv |-> argv], k)
Emit ==
  /\ MarkDone
  /\ PrintT(<<"CASE", ToJson([sc |-> [flags |-> b.sc.flags, args |-> b.sc.args, rtl |-> b.sc.rtl, dfa |-> b.sc.dfa,
                                     sfp |-> b.sc.sfp, argv |-> b.sc.argv], exp |-> Outcome])>>)
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
