------------------------------ MODULE ConvGen ------------------------------
(* Every short text for every type, every text about the limits of the       *)
(* numbers, every way to set it and every way to look it up.                 *)
EXTENDS Conv, Json
CONSTANT Max

GenScen(x) == x
Plain0 == [kind |-> "int", el |-> "flag", via |-> "set", init |-> "", opt |-> FALSE, texts |-> <<>>, looks |-> <<>>]
Look1(a, v, s) == [acc |-> a, via |-> v, as |-> s]
One(k, via, t) == ConvInit([Plain0 EXCEPT !.kind = k, !.via = via, !.texts = <<t>>, !.looks = << Look1(k, "values", "plain") >>])

Texts(cs, n, k, via) == \E m \in 0..n : \E t \in [1..m -> cs] : One(k, via, JoinStr(t, ""))
Numbers == \/ \E k \in {"int8", "uint8"} : Texts({"0", "1", "7", "9", "x", "b", "o", "_", "-", "+", "F"}, 3, k, "set")
           \/ \E k \in DOMAIN MaxOf \ {"int8", "uint8"} : Texts({"0", "1", "8", "x", "_", "-", "a"}, Max - 1, k, "set")
           \/ Texts({"0", "1", "_", "-", "+", "x"}, Max, "bigint", "set")
Limits ==
  \E k \in DOMAIN MaxOf, j \in DOMAIN MaxOf, p \in {"", "+", "-", "0x", "0", "_", "0b"}, d \in {"", "0", "_0"}, add \in {0, 1, 2}, via \in {"set", "argv"} :
    /\ Max > 3 \/ (via = "argv" /\ (j = k \/ p = "") /\ p \notin {"0x", "0b"} /\ (d = "" \/ add = 1))
    /\ One(k, via, p \o Add(MaxOf[j], ToString(add), 0) \o d)
Hexes == \E k \in DOMAIN MaxOf, n \in {1, 2, 3, 4, 5, 8, 9, 15, 16, 17}, p \in {"", "-"}, d \in {"f", "7", "8", "1"} : (Max > 3 \/ (p = "") = (k \in Uints)) /\ One(k, "argv", p \o "0x" \o (IF d = "f" THEN "f" ELSE d) \o JoinStr([i \in 1..(n - 1) |-> IF d \in {"7", "f"} THEN "F" ELSE "0"], ""))
FloatTexts == \/ \E k \in Floats : Texts({"1", "5", "0", ".", "e", "-", "+"}, Max, k, "set")
              \/ \E m \in {"", "1", "5", "10"}, f \in {"", ".", ".5", ".0", ".25"}, e \in {"", "e1", "E+2", "e"}, s \in {"", "-"} : One("bigfloat", "set", s \o m \o f \o e)
Durations == Texts({"1", "5", ".", "s", "m", "h", "n", "-", "0", "u"}, Max, "duration", "set")
             \/ \E a, b \in {"1h", "90m", "1.5s", ".25m", "7ms", "1us", "3ns", "0.1h", "2562047h", "1000000000ns"}, s \in {"", "-", "+"} : One("duration", "argv", s \o a \o b)
IPs == \E ps \in [1..4 -> {"", "0", "01", "255", "256", "a"}] : One("ip", "set", JoinStr(ps, "."))
             \/ (ps[1] = "0" /\ One("ip", "argv", JoinStr(ps \o <<"1">>, ".")))
Others == Texts({"0", "a", "F", "g"}, Max + 1, "bytes", "argv") \/ Texts({"t", "T", "o", "n", "N", "f", "1", "0"}, 3, "bool", "set")
          \/ \E b \in {"true", "TRUE", "False", "off", "OFF", "yes", "2"} : One("bool", "argv", b)
          \/ \E k \in {"url", "regexp", "string"}, t \in {"", "x", "http://h/p?q=1", ":x", "%zz", "(", "a+b", "a**", "http://h/%41"} : One(k, "set", t)

Kinds == DOMAIN MaxOf \cup Floats \cup {"duration", "bigint", "bigfloat", "ip", "bytes", "bool", "url", "regexp", "string"}
Good(k) == CASE k = "duration" -> "1m" [] k = "ip" -> "1.2.3.4" [] k = "bytes" -> "0aff" [] k = "bool" -> "on" [] k \in {"url", "regexp", "string"} -> "x" [] OTHER -> "12"
Also(k) == CASE k = "duration" -> "x" [] k = "ip" -> "x" [] k = "bytes" -> "x" [] k = "bool" -> "x" [] k \in {"url", "regexp"} -> IF k = "url" THEN ":x" ELSE "(" [] k = "string" -> "y" [] OTHER -> "x"
Inits(k) == {""} \cup (IF k \in {"bytes", "string"} THEN {} ELSE {IF k = "duration" THEN "7s" ELSE IF k = "ip" THEN "9.9.9.9" ELSE IF k = "bool" THEN "true" ELSE "7"})
Group(k) == CASE k \in Ints -> Ints [] k \in Uints -> Uints [] k \in Floats -> Floats [] OTHER -> {k}
Vias(app, el) ==
  {<<v, a>> : v \in {"values", "plain"}, a \in {"plain", "rune", "elem", "missing"}} \cup {<<"func", a>> : a \in {"plain", "rune", "elem", "long", "short", "angle", "missing"}}
  \cup {<<"nilfunc", "plain">>, <<"nilvalues", "plain">>}
  \cup (IF app THEN {<<"ctx", a>> : a \in {"plain", "elem", "angle", "missing"} \cup (IF el = "arg" THEN {"index"} ELSE {"alias", "long", "rune"})} ELSE {})
  \cup (IF app THEN {<<"own", "self">>, <<"own", "nil">>} ELSE {})
Lookups ==
  \E k \in IF Max > 3 THEN Kinds ELSE {"int", "uint8", "float32", "duration", "ip", "bytes", "bool", "string"}, i \in {"", "7"} :
   \E m \in {<<"flag", "argv">>, <<"flag", "sep">>, <<"flag", "run">>, <<"arg", "argv">>, <<"flag", "set">>} :
    \E ts \in { <<Good(k)>>, <<>>, <<Good(k), Good(k)>>, <<Good(k), Also(k)>> } :
     \E v \in Vias(m[2] # "set", m[1]), a \in Group(k) \cup {"value", "interface", "string", "duration", "url"} :
       /\ Max > 3 \/ i = "" \/ ts = <<>>
       /\ (v[2] = "missing" \/ v[1] \in {"nilfunc", "nilvalues"}) => a \notin (Group(k) \ {"string", "duration", "url", "ip", "bytes", "regexp", "bigint", "bigfloat"})
       /\ (v[2] # "missing" /\ v[1] \notin {"nilfunc", "nilvalues"}) => a \in Group(k) \cup {"value", "interface"}
       /\ a = "interface" => v[2] # "index"
       /\ m[1] = "arg" => Len(ts) = 1
       /\ v[1] = "own" => ts # <<>>
       /\ k = "bool" => m[2] \in {"argv", "set"}
       /\ i # "" => Inits(k) # {""}
       /\ ConvInit([Plain0 EXCEPT !.kind = k, !.el = m[1], !.via = m[2], !.texts = ts, !.init = IF i = "" THEN "" ELSE (CHOOSE x \in Inits(k) : x # ""), !.looks = << Look1(a, v[1], v[2]) >>])
Sets == \E k \in Kinds \ {"bytes"}, via \in {"data", "databytes", "datareader", "set"}, ts \in {<<1>>, <<1, 1>>, <<1, 2>>, <<2>>, <<1, 2, 1>>} :
          ConvInit([Plain0 EXCEPT !.kind = k, !.via = via, !.texts = [j \in 1..Len(ts) |-> IF ts[j] = 1 THEN Good(k) ELSE Also(k)], !.looks = << Look1(k, "values", "plain") >>])
Optionals == \E k \in Kinds \ {"bytes", "bool", "url", "regexp", "string", "bigint", "bigfloat"}, ts \in {<<"">>, <<"", "">>, <<"12", "">>, <<"", "x">>, <<"x">>}, i \in BOOLEAN :
          ConvInit([Plain0 EXCEPT !.kind = k, !.via = "argv", !.opt = TRUE, !.texts = [j \in 1..Len(ts) |-> IF ts[j] = "12" THEN Good(k) ELSE ts[j]],
                    !.init = IF i THEN (CHOOSE x \in Inits(k) : x # "") ELSE "", !.looks = << Look1(k, "ctx", "plain") >>])
GenInit == Numbers \/ Limits \/ Hexes \/ FloatTexts \/ Durations \/ IPs \/ Others \/ Lookups \/ Sets \/ Optionals
Emit == /\ Done /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, todo, val, res, looks>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
