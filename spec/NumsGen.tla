------------------------------ MODULE NumsGen ------------------------------
(* Every short text of each kind, piece by piece, and the ends of the range. *)
EXTENDS Nums, Json
CONSTANT MaxLen
VARIABLE judged

GenScen(x) == x
RECURSIVE Texts(_, _)
Texts(ps, n) == IF n = 0 THEN {""} ELSE LET t == Texts(ps, n - 1) IN t \cup {x \o p : x \in t, p \in ps}
S(t, x) == [type |-> t, v |-> "", by |-> "set", text |-> x]
J(v, by, x) == [type |-> "json", v |-> v, by |-> by, text |-> x]
HexTexts == Texts({"0", "1", "7", "a", "F", "g", "-", "0x", "0o"}, MaxLen)
            \cup {a \o b : a \in {"", "-", "0x", "0x-"}, b \in {"7fffffffffffffff", "8000000000000000", "8000000000000001", "FFFFFFFFFFFFFFFFF", "00000000000000000000a5"}}
OctTexts == Texts({"0", "1", "7", "8", "-", "0o", "0x"}, MaxLen)
            \cup {a \o b : a \in {"", "-", "0o"}, b \in {"777777777777777777777", "1000000000000000000000", "1000000000000000000001", "0000000000000000000000012"}}
ByteTexts == Texts({"0", "15", ".", "k", "M", "i", "B", " ", "-"}, MaxLen)
             \cup {n \o s \o u : n \in {"1", "0.1", "1.001", "999.999999", "8.5", "4.35", "0.0005", "1.0005", ".5", "1.", "2.3", "1.1", "..", "1.2.3"},
                                 s \in {"", " "}, u \in {"B", "kB", "KB", "MB", "GB", "TB", "PB", "kiB", "KiB", "MiB", "GiB", "TiB", "PiB", "k", "BB", "KiBx", "xB"}}
             \cup {"8EB", "7EiB", "9.2EB", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "9223372036854775807B", "9223372036854775808B"}
GenInit ==
  /\ judged = FALSE
  /\ \E steps \in {<<S("hex", x)>> : x \in HexTexts} \cup {<<S("octal", x)>> : x \in OctTexts} \cup {<<S("bytes", x)>> : x \in ByteTexts}
              \cup {<<J("hex", "set", x), J("pogo", "set", x), J("text", "set", x)>> : x \in {"a", "", "1", "0x10", "ff"}}
              \cup {<<J("hex", "data", x), J("text", "data", x)>> : x \in {"\"ff\"", "\"0x10\"", " \"1\"", "null", "{}", "", "\"7"}}
              \cup {<<J("pogo", "data", x)>> : x \in {"{\"j\":\"a\",\"k\":3}", "{\"k\":3}", "{}", "{\"z\":1}", "null", "\"a\"", "", "[]", "{\"k\":\"3\"}"}} :
       NumsInit([steps |-> steps])
Emit == /\ Done /\ ~judged /\ judged' = TRUE
        /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ UNCHANGED vars
GenNext == (Step /\ UNCHANGED judged) \/ Emit
GenSpec == GenInit /\ [][GenNext]_<<vars, judged>>
=============================================================================
