------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* The texts of values: how they are separated, the kinds of values and    *)
(* what their texts mean.                                                  *)
(***************************************************************************)
EXTENDS Str, TLC

---------------------------------------------------------------------------
(* text *)
IsSpace(c) == c \in {" ", "\n", "\t"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s = "" THEN s ELSE IF IsSpace(Ch(s, 1)) THEN TrimL(Drop(s, 1)) ELSE s
TrimR(s) == IF s = "" THEN s ELSE IF IsSpace(Ch(s, Len(s))) THEN TrimR(TakeN(s, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

\* cut s at the unescaped separators into at most n pieces (n = 0: no limit); an escaped
\* separator is literal, every other backslash is kept
RECURSIVE Cut(_, _, _, _, _)
Cut(s, sep, n, piece, done) ==
  IF s = "" THEN Append(done, piece)
  ELSE IF StartsWith(s, "\\" \o sep) THEN Cut(Drop(s, 2), sep, n, piece \o sep, done)
  ELSE IF Ch(s, 1) = sep /\ Len(done) + 1 # n
       THEN Cut(Drop(s, 1), sep, n, "", Append(done, piece))
  ELSE Cut(Drop(s, 1), sep, n, piece \o Ch(s, 1), done)
Split(s, sep, n) ==
  LET t == Trim(s) IN IF t = "" THEN <<>> ELSE Cut(t, sep, n, "", <<>>)
RECURSIVE Unescape(_, _)
Unescape(s, c) ==
  IF s = "" THEN "" ELSE IF StartsWith(s, "\\" \o c) THEN c \o Unescape(Drop(s, 2), c)
  ELSE Ch(s, 1) \o Unescape(Drop(s, 1), c)
\* name and text of a pair; escapes of both separators are resolved here
Pair(s) == Split(Unescape(s, ","), "=", 2)
RECURSIVE Plain(_, _, _, _)
Plain(s, c, piece, done) ==
  IF s = "" THEN Append(done, piece)
  ELSE IF Ch(s, 1) = c THEN Plain(Drop(s, 1), c, "", Append(done, piece))
  ELSE Plain(Drop(s, 1), c, piece \o Ch(s, 1), done)

---------------------------------------------------------------------------
(* kinds of values *)
Ladder == <<"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295",
            "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616">>
TopOf == [int8 |-> 1, uint8 |-> 3, int16 |-> 5, uint16 |-> 7, int32 |-> 9, uint32 |-> 11, int64 |-> 13, int |-> 13,
          uint64 |-> 15, uint |-> 15]
Ints == DOMAIN TopOf
Signed == {"int8", "int16", "int32", "int64", "int"}
SmallInts == ("0" :> "0") @@ ("1" :> "1") @@ ("7" :> "7") @@ ("12" :> "12") @@ ("0x10" :> "16") @@ ("010" :> "8")
             @@ ("0b11" :> "3") @@ ("0o17" :> "15") @@ ("1_0" :> "err") @@ ("0x1_0" :> "16") @@ ("+3" :> "+3")
Lows == <<"-128", "-129", "-32768", "-32769", "-2147483648", "-2147483649">>
LowOf == [int8 |-> 1, int16 |-> 3, int32 |-> 5, int64 |-> 6, int |-> 6]
IntText(kind, t) ==
  LET i == FirstIdx(Ladder, LAMBDA x : x = t)
      j == FirstIdx(Lows, LAMBDA x : x = t)
  IN  CASE t = "+3" -> IF kind \in Signed THEN "3" ELSE "err"
        [] t \in DOMAIN SmallInts -> SmallInts[t]
        [] t = "-3" -> IF kind \in Signed THEN "-3" ELSE "err"
        [] i > 0 -> IF i <= TopOf[kind] THEN t ELSE "err"
        [] j > 0 -> IF kind \in Signed THEN (IF j <= LowOf[kind] THEN t ELSE "err") ELSE "err"
        [] OTHER -> "err"
Floats == ("0" :> "0") @@ ("1" :> "1") @@ ("7" :> "7") @@ ("1.5" :> "1.5") @@ (".5" :> "0.5") @@ ("1e3" :> "1000") @@ ("-3" :> "-3")
FloatText(kind, t) ==
  IF t \in DOMAIN Floats THEN Floats[t]
  ELSE IF t = "1e39" /\ kind = "float64" THEN "1e+39" ELSE "err"
Durs == ("0" :> "0s") @@ ("1s" :> "1s") @@ ("90s" :> "1m30s") @@ ("1m" :> "1m0s") @@ ("1h1m" :> "1h1m0s") @@ ("150ms" :> "150ms") @@ ("-1s" :> "-1s")
Bools == [t \in {"", "1", "true", "on", "t", "TRUE", "On"} |-> "true"] @@ [t \in {"0", "false", "off", "f", "False"} |-> "false"]
Urls == [t \in {"http://h/p", "rel/p", "", "7", "1", "q"} |-> t]
Res == [t \in {"a+", "", "x|y", "7", "1", "q"} |-> t]
Ips == ("1.2.3.4" :> "1.2.3.4") @@ ("::1" :> "::1") @@ ("0:0::1" :> "::1")
BigInts == ("0" :> "0") @@ ("1" :> "1") @@ ("7" :> "7") @@ ("010" :> "10") @@ ("123456789012345678901234567890" :> "123456789012345678901234567890") @@ ("-3" :> "-3")
Hex == ("" :> "") @@ ("61" :> "a") @@ ("6263" :> "bc") @@ ("4A" :> "J") @@ ("4a" :> "J")
Look(tab, t) == IF t \in DOMAIN tab THEN tab[t] ELSE "err"

Tabled == Ints \cup {"float32", "float64", "dur", "bool", "url", "re", "ip", "bigint"}
Parsed(kind, t) ==
  CASE kind \in Ints -> IntText(kind, t)
    [] kind \in {"float32", "float64"} -> FloatText(kind, t)
    [] kind = "dur" -> Look(Durs, t)
    [] kind = "bool" -> Look(Bools, t)
    [] kind = "url" -> Look(Urls, t)
    [] kind = "re" -> Look(Res, t)
    [] kind = "ip" -> Look(Ips, t)
    [] kind = "bigint" -> Look(BigInts, t)

Lines == {"list", "cust", "acc", "fset"}
Pairs == {"map", "nvs"}
Rows(xs) == [i \in 1..Len(xs) |-> <<xs[i]>>]
Ok(v) == [ok |-> TRUE, v |-> v]
No(v) == [ok |-> FALSE, v |-> v]

\* the map entry for key set to text
SetKey(m, key, text) ==
  LET i == FirstIdx(m, LAMBDA r : r[1] = key)
  IN  IF i = 0 THEN Append(m, <<key, text>>) ELSE [m EXCEPT ![i] = <<key, text>>]
\* a piece without "=" continues the text of the pair before it
RECURSIVE MapOf(_, _, _)
MapOf(pieces, last, m) ==
  IF pieces = <<>> THEN m
  ELSE LET p == Pair(Head(pieces))
           now == IF Len(p) = 2 THEN p ELSE IF Len(p) = 1 THEN <<last[1], last[2] \o "," \o p[1]>> ELSE last
       IN  MapOf(Tail(pieces), now, SetKey(m, now[1], now[2]))
RECURSIVE Merge(_, _)
Merge(m, n) == IF n = <<>> THEN m ELSE Merge(SetKey(m, n[1][1], n[1][2]), Tail(n))
RECURSIVE AddPairs(_, _)
AddPairs(v, pieces) ==
  IF pieces = <<>> THEN Ok(v)
  ELSE LET p == Pair(Head(pieces))
       IN IF Len(p) # 2 THEN No(v) ELSE AddPairs(Append(v, p), Tail(pieces))
=============================================================================
