------------------------------ MODULE StrucGen ------------------------------
(* Every small sequence of uses, over each kind of field. *)
EXTENDS Struc, Json
CONSTANT Deep
VARIABLE judged

GenScen(x) == x
G(how, whole, strict, init, uses, in) == [how |-> how, whole |-> whole, strict |-> strict, init |-> init, uses |-> uses, in |-> in]
Texts == <<<<"x", "", "a=b", "p\\,q", "k,l", "bad">>, <<"7", "", "0x10", "-3", "x", "9223372036854775808">>, <<"255", "256", "", "-3">>,
           <<"true", "0", "", "on">>, <<"90s", "", "7">>, <<"x", "", "x,y", "x\\,y", "v,w,x,y,z", ",">>, <<"::1", "", "7">>,
           <<"http://h/p", "q", "">>, <<"a+", "">>, <<"x", "", "bad">>, <<"x", "", "bad">>>>
TextsOf(f) == Range(Texts[f])
Eq(name, t) == name \o "=" \o t
Odd == {"zzz=1", "lone", "=v", ""}
Hows == {"flag", "arg", "set", "value"}
Wholes(how) == {"", "method"} \cup (IF how \in {"flag", "arg"} THEN {"option"} ELSE {})
Fields == 1..Len(Names)
\* one field, given once or twice, in every way
OneField ==
  \E how \in Hows, strict \in BOOLEAN, init \in BOOLEAN, f \in Fields : \E whole \in Wholes(how) :
    \E t \in TextsOf(f), u \in TextsOf(f) :
      \/ u = "" /\ StrucInit(G(how, whole, strict, init, <<Eq(Names[f], t)>>, <<>>))
      \/ StrucInit(G(how, whole, strict, init, <<Eq(Names[f], t), Eq(LowNames[f], u)>>, <<>>))
\* two fields in one use
TwoFields ==
  \E how \in (IF Deep THEN Hows ELSE {"flag"}), strict \in BOOLEAN, init \in BOOLEAN, f \in Fields, g \in Fields :
    \E t \in TextsOf(f), u \in TextsOf(g) :
      f # g /\ StrucInit(G(how, "", strict, init, <<Eq(Names[f], t) \o "," \o Eq(LowNames[g], u)>>, <<>>))
\* names of no field, and pieces without a name
OddPieces ==
  \E how \in Hows, strict \in BOOLEAN, f \in Fields, o \in Odd : \E whole \in Wholes(how), t \in TextsOf(f) :
    \/ StrucInit(G(how, whole, strict, FALSE, <<o>>, <<>>))
    \/ whole = "" /\ StrucInit(G(how, whole, strict, FALSE, <<o \o "," \o Eq(Names[f], t)>>, <<>>))
    \/ whole = "" /\ f # 8 /\ StrucInit(G(how, whole, strict, FALSE, <<Eq(Names[f], t) \o "," \o o>>, <<>>))
\* the same field twice in one use
Twice ==
  \E how \in Hows, strict \in BOOLEAN, f \in {1, 2, 6}, nm \in BOOLEAN, first \in BOOLEAN : \E t \in TextsOf(f), u \in TextsOf(f) :
    LET a == Eq(Names[f], t)
        b == Eq(IF nm THEN LowNames[f] ELSE Names[f], u)
    IN StrucInit(G(how, "", strict, FALSE, <<IF first THEN a \o "," \o b ELSE b \o "," \o a>>, <<>>))
Inputs_(f) == {<<Names[f], "str", t>> : t \in TextsOf(f)} \cup (IF f \in {7, 3} THEN {} ELSE {<<LowNames[f], "int", t>> : t \in {"0", "1", "7"}})
              \cup (IF f = 7 THEN {} ELSE {<<Names[f], "bool", t>> : t \in {"true", "false"}})
Decode ==
  \E strict \in BOOLEAN, f \in Fields, g \in Fields \cup {0} : \E x \in Inputs_(f) :
    IF g = 0 THEN StrucInit(G("decode", "", strict, FALSE, <<>>, <<x, <<"zzz", "str", "1">>>>))
    ELSE IF g = f THEN StrucInit(G("decode", "", strict, FALSE, <<>>, <<x>>))
    ELSE g > f /\ \E y \in Inputs_(g) : StrucInit(G("decode", "", strict, FALSE, <<>>, <<x, y>>))
GenInit == judged = FALSE /\ (OneField \/ TwoFields \/ OddPieces \/ Twice \/ Decode)
Emit == /\ Done /\ ~judged /\ judged' = TRUE
        /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ UNCHANGED vars
GenNext == (Step /\ UNCHANGED judged) \/ Emit
GenSpec == GenInit /\ [][GenNext]_<<vars, judged>>
=============================================================================
