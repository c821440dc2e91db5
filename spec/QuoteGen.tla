------------------------------ MODULE QuoteGen ------------------------------
(* Every short text over the characters that matter, enumerated from Quote.  *)
EXTENDS Quote, Json
CONSTANTS Max, Wide

GenScen(x) == x
GenText(x) == x.text
S(op, t, l, sep, n, k) == QuoteInit([op |-> op, text |-> t, list |-> l, sep |-> sep, n |-> n, kind |-> k])
Cat(f) == JoinStr(f, "")
Texts ==
  \E n \in 0..Max : \E t \in [1..n -> {"a", " ", "'", "\"", "\\", "\n", "$"}] : S("split", Cat(t), <<>>, "", -1, "")
Others == \E n \in 0..3 : \E t \in [1..n -> {"a", "'", "\"", "\\", "\t", "\r", "#", "~", "`", "*", ";"}] : S("split", Cat(t), <<>>, "", -1, "")
Strs(k) == UNION {[1..n -> {"a", "'", "\\", "$", " ", "\n"}] : n \in 0..k}
Refs ==
  \E n \in 0..(IF Wide THEN 3 ELSE 2) : \E l \in [1..n -> Strs(IF Wide /\ n < 3 THEN 3 ELSE 2)] :
    LET w == [i \in 1..n |-> Cat(l[i])] IN n * Len(JoinStr(w, "")) <= 6 /\ S("split", JoinedRef(w), w, "", -1, "ref")
ListsG ==
  \E sep \in {",", "::"}, lim \in {-1, 1, 2, 3}, n \in 0..(Max + 1) : \E t \in [1..n -> {"a", " ", "\\", IF sep = "," THEN "," ELSE ":"}] :
    S("list", Cat(t), <<>>, sep, lim, "")
MapsG ==
  \E n \in 0..(Max + 1) : \E t \in [1..n -> {"a", "b", "=", ",", "\\"}] : S("map", "a=" \o Cat(t), <<>>, "", -1, "")
Values ==
  \/ S("value", "", <<>>, "", -1, "nil")
  \/ \E k \in {"strs", "map", "nvs"}, l \in {<<>>, <<"a">>, <<"b", "a">>, <<"c", "a", "b">>} : S("value", "", l, "", -1, k)
  \/ \E t \in {"", "a", "a b", "z'0"} : S("value", t, <<>>, "", -1, "bytes")
  \/ \E k \in {"int", "intptr", "bigint"}, t \in {"0", "-7", "123456789012"} : S("value", t, <<>>, "", -1, k)
  \/ \E t \in {"0", "255"} : S("value", t, <<>>, "", -1, "uint8")
  \/ \E t \in {"true", "false"} : S("value", t, <<>>, "", -1, "bool")
  \/ \E t \in {"1.5", "-2", "1e+30"} : S("value", t, <<>>, "", -1, "float")
  \/ \E t \in {"https://e.x/a?b=c", "a%20b"} : S("value", t, <<>>, "", -1, "url")
  \/ \E t \in {"10.0.0.1", "::1"} : S("value", t, <<>>, "", -1, "ip")
  \/ \E t \in {"a*", "[x y]"} : S("value", t, <<>>, "", -1, "regexp")
  \/ \E t \in {"1h2m3s", "5ms"} : S("value", t, <<>>, "", -1, "duration")
  \/ \E k \in {"stringer", "text"}, t \in {"", "x", "a b"} : S("value", t, <<>>, "", -1, k)
GenInit == Texts \/ Others \/ Refs \/ ListsG \/ MapsG \/ Values
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, pos, word, words, special>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
