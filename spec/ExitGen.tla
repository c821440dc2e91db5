------------------------------ MODULE ExitGen ------------------------------
(* Every handler as the failing one, every way to make an exit error. *)
EXTENDS Exit, Json
CONSTANT Deep

GenScen(x) == x
Base == [rt |-> <<>>, st |-> <<>>, rbad |-> "", sbad |-> "", sub |-> "", xe |-> FALSE, ye |-> FALSE, h |-> <<>>, mode |-> "hand"]
R(t, s, n, as) == [t |-> t, s |-> s, n |-> n, args |-> as]
Ar(t, s, n) == [t |-> t, s |-> s, n |-> n]
Args1 == {Ar("s", "bye", 0), Ar("s", "", 0), Ar("i", "", 0), Ar("i", "", 3), Ar("e", "boom", 0), Ar("x", "inner", 4), Ar("x", "zero", 0), Ar("n", "", 0),
          Ar("c", "UnknownOption", 0), Ar("c", "CommandNotFound", 0), Ar("s", "100%d", 0)}
Exits == {R("exit", "", 0, <<>>)} \cup {R("exit", "", 0, <<a>>) : a \in Args1} \cup {R("exit", "", 0, <<a, b>>) : a \in Args1, b \in Args1}
Exits3 == {R("exit", "", 0, <<a, b, c>>) : a \in Args1, b \in Args1, c \in Args1}
Few == {R("err", "boom", 0, <<>>), R("err", "", 0, <<>>), R("coder", "mine", 7, <<>>), R("coder", "", 5, <<>>), R("coder", "fine", 0, <<>>),
        R("coder", "two", 2, <<>>), R("code", "InvalidArgument", 0, <<>>), R("panic", "oops", 0, <<>>), R("panic", "50%s", 0, <<>>),
        R("exit", "", 0, <<Ar("i", "", 0)>>), R("exit", "", 0, <<Ar("s", "bye", 0), Ar("i", "", 9)>>)}
Ids == {"ui", "ux", "us", "uy", "br", "bx", "ax", "ar", "bs", "by", "ay", "as", "fs", "fy", "fr", "fx"}
Runs == {[Base EXCEPT !.rt = rt] : rt \in {<<>>, <<"-x">>, <<"--help", "-x">>}}
        \cup {[Base EXCEPT !.rt = rt, !.sub = "sub", !.st = st] : rt \in {<<>>, <<"-x">>}, st \in {<<>>, <<"-y">>, <<"-y", "-x">>}}
        \cup {[Base EXCEPT !.rt = <<"-x">>, !.rbad = "--zz"], [Base EXCEPT !.rt = <<"-x">>, !.rbad = "-y", !.sub = "sub"], [Base EXCEPT !.sub = "nocmd"],
              [Base EXCEPT !.sub = "sub", !.st = <<"-y">>, !.sbad = "extra"], [Base EXCEPT !.sub = "sub", !.sbad = "-s"],
              [Base EXCEPT !.sub = "sub", !.sbad = "-w"], [Base EXCEPT !.sub = "sub", !.st = <<"--version">>, !.rt = <<"-x">>]}
        \cup {[Base EXCEPT !.rt = <<"-x">>, !.xe = TRUE, !.sub = sub] : sub \in {"", "sub", "nocmd"}}
        \cup {[Base EXCEPT !.sub = "sub", !.st = <<"-x", "-y">>, !.xe = xe, !.ye = TRUE] : xe \in {TRUE, FALSE}}
F(id, r) == <<[id |-> id, r |-> r]>>
GenInit ==
  \/ \E s \in Runs : ExitInit(s)
  \/ \E s \in Runs, id \in Ids, r \in Few : ExitInit([s EXCEPT !.h = F(id, r)])
  \/ \E s \in {[Base EXCEPT !.rt = <<"-x">>], [Base EXCEPT !.sub = "sub"]}, id \in {"ar", "as", "fr"}, r \in Exits :
        Has(<<"ar", "fr">>, id) = (s.sub = "") /\ ExitInit([s EXCEPT !.h = F(id, r)])
  \/ \E s \in Runs, id \in Ids, r \in {x \in Few : x.s # "boom"} : \* in a process of its own
        (Deep \/ id \in {"us", "bx", "ax", "as", "fr"}) /\ ExitInit([s EXCEPT !.h = F(id, r), !.mode = "proc"])
  \/ \E r \in Exits : ExitInit([Base EXCEPT !.h = F("ar", r), !.mode = "proc"])
  \/ \E s \in Runs : ExitInit([s EXCEPT !.mode = "proc"])
  \/ Deep /\ \E r \in Exits3 : ExitInit([Base EXCEPT !.h = F("ar", r)])
  \/ Deep /\ \E s \in Runs, i \in Ids, j \in Ids, r \in Few, q \in {x \in Few : x.t \in {"err", "panic", "coder"}} :
        i # j /\ ExitInit([s EXCEPT !.h = F(i, r) \o F(j, q)])
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ k' = k + 1 /\ UNCHANGED <<sid, pan, out, end>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
