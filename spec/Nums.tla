-------------------------------- MODULE Nums --------------------------------
(***************************************************************************)
(* Numbers that are written in other ways: in hexadecimal, in octal, as a  *)
(* length in bytes with a unit; and values wrapped as JSON.                *)
(*                                                                         *)
(* A text is read digit by digit: the state is the number read so far.     *)
(* Numbers are sequences of decimal digits, so that they have any size.    *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, k, todo, num, res
vars == <<sid, k, todo, num, res>>
sc == Scen(sid)
St == sc.steps[k]

---------------------------------------------------------------------------
(* numbers without sign, most significant digit first; zero has no digits *)
RECURSIVE DigitsOf(_), MulAdd(_, _, _), Less(_, _), Times(_, _, _)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE Append(DigitsOf(n \div 10), n % 10)
MulAdd(d, m, c) ==
  IF d = <<>> THEN DigitsOf(c)
  ELSE LET x == d[Len(d)] * m + c IN Append(MulAdd(SubSeq(d, 1, Len(d) - 1), m, x \div 10), x % 10)
Times(d, m, n) == IF n = 0 THEN d ELSE Times(MulAdd(d, m, 0), m, n - 1)
Less(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = <<>> THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
MaxPos == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
MaxNeg == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
Fits(neg, d) == ~Less(IF neg THEN MaxNeg ELSE MaxPos, d)
Chr(d) == SubSeq("0123456789ABCDEF", d + 1, d + 1)
Decimal(neg, d) == IF d = <<>> THEN "0" ELSE (IF neg THEN "-" ELSE "") \o JoinStr([i \in 1..Len(d) |-> Chr(d[i])], "")

Digit(c) == LET u == IndexOf("0123456789ABCDEF", c) IN IF u # 0 THEN u - 1 ELSE IndexOf("0123456789abcdef", c) - 1
Base(t) == CASE t = "hex" -> 16 [] t = "octal" -> 8 [] OTHER -> 10
Prefix(t) == CASE t = "hex" -> "0x" [] t = "octal" -> "0o" [] OTHER -> ""
Signed(s) == s # "" /\ Ch(s, 1) \in {"-", "+"}
\* a text without its prefix, as sign and digits
Body(t, s) == IF StartsWith(s, Prefix(t)) THEN Drop(s, Len(Prefix(t))) ELSE s
Bare(s) == IF Signed(s) THEN Drop(s, 1) ELSE s
Neg(s) == s # "" /\ Ch(s, 1) = "-"

(* the other way round: the number as it is written in base b *)
RECURSIVE DivMod(_, _, _, _), InBase(_, _)
DivMod(d, m, r, q) == IF d = <<>> THEN <<q, r>>
                      ELSE LET x == r * 10 + d[1] IN DivMod(Tail(d), m, x % m, IF q = <<>> /\ x \div m = 0 THEN <<>> ELSE Append(q, x \div m))
InBase(d, b) == IF d = <<>> THEN "" ELSE LET x == DivMod(d, b, 0, <<>>) IN InBase(x[1], b) \o Chr(x[2])
Written(t, neg, d) == Prefix(t) \o (IF neg /\ d # <<>> THEN "-" ELSE "") \o (IF d = <<>> THEN "0" ELSE InBase(d, Base(t)))

---------------------------------------------------------------------------
(* A length in bytes: digits, perhaps with a fraction, and a unit.           *)
RECURSIVE TrimLeft(_), TrimRight(_), NumLen(_, _)
TrimLeft(s) == IF StartsWith(s, " ") THEN TrimLeft(Drop(s, 1)) ELSE s
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN TrimRight(TakeN(s, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))
Last(s) == Ch(s, Len(s))
NumLen(s, i) == IF i > Len(s) THEN i - 1 ELSE IF IndexOf("0123456789.", Ch(s, i)) # 0 THEN NumLen(s, i + 1) ELSE i - 1
Units == [u \in {"kB", "KB", "MB", "GB", "TB", "PB", "EB"} |->
            CASE u \in {"kB", "KB"} -> 1 [] u = "MB" -> 2 [] u = "GB" -> 3 [] u = "TB" -> 4 [] u = "PB" -> 5 [] u = "EB" -> 6]
\* how a text is read: which digits, how many of them are the fraction, and the unit
Wrong == [ok |-> FALSE, digits |-> "", frac |-> 0, base |-> 1, power |-> 0]
Length(text) ==
  LET s == Trim(text)
      n == NumLen(s, 1)
      a == TakeN(s, n)
      u == TrimLeft(Drop(s, n))
      two == IF Len(u) = 3 /\ Ch(u, 2) = "i" THEN Ch(u, 1) \o "B" ELSE u
      p == IndexOf(a, ".")
      after == IF p = 0 THEN "" ELSE Drop(a, p)
      whole == IF p = 0 THEN a ELSE TakeN(a, p - 1)
  IN  IF s = "" THEN Wrong
      ELSE IF Last(s) # "B"                          \* a plain number, which can have a sign
      THEN [Wrong EXCEPT !.ok = TRUE, !.digits = s]
      ELSE IF u = "B"
      THEN [Wrong EXCEPT !.ok = n > 0 /\ p = 0, !.digits = a]
      ELSE [ok |-> n > 0 /\ two \in DOMAIN Units /\ Last(u) = "B" /\ IndexOf(after, ".") = 0 /\ whole \o after # "",
            digits |-> whole \o after, frac |-> Len(after), base |-> IF two = u THEN 1000 ELSE 1024,
            power |-> IF two \in DOMAIN Units THEN Units[two] ELSE 0]

---------------------------------------------------------------------------
(* JSON: a value that can be set from a text is; all of them from data. *)
Json1(st) ==
  LET t == st.text IN
  CASE st.by = "set" /\ st.v = "text" -> <<t>>
    [] st.by = "set" /\ st.v = "pogo" -> <<"error">>
    [] st.by = "set" /\ st.v = "hex" -> IF t = "0x10" THEN <<"16">> ELSE IF t \in {"", "w x"} THEN <<"error">> ELSE <<CASE t = "a" -> "10" [] t = "1" -> "1" [] t = "ff" -> "255">>
    [] st.v = "text" -> CASE t = "\"ff\"" -> <<"ff">> [] t = "\"0x10\"" -> <<"0x10">> [] t = " \"1\"" -> <<"1">> [] t = "null" -> <<"">> [] OTHER -> <<"error">>
    [] st.v = "hex" -> CASE t = "\"ff\"" -> <<"255">> [] t = "\"0x10\"" -> <<"16">> [] t = " \"1\"" -> <<"1">> [] t = "null" -> <<"0">> [] OTHER -> <<"error">>
    [] OTHER -> CASE t = "{\"j\":\"a\",\"k\":3}" -> <<"a 3">> [] t = "{\"k\":3}" -> <<" 3">> [] t \in {"{}", "{\"z\":1}", "null"} -> <<" 0">> [] OTHER -> <<"error">>

---------------------------------------------------------------------------
(* what is still to be read of step i: <<sign, digits>> *)
Todo(s, i) ==
  IF i > Len(s.steps) THEN ""
  ELSE LET st == s.steps[i] IN
       CASE st.type = "json" -> ""
         [] st.type = "bytes" -> Length(st.text).digits
         [] OTHER -> Body(st.type, st.text)
NumsInit(i) == sid = i /\ k = 1 /\ num = <<>> /\ res = <<>> /\ todo = Bare(Todo(Scen(i), 1))
Answer(x) == res' = Append(res, x) /\ k' = k + 1 /\ num' = <<>> /\ todo' = Bare(Todo(sc, k + 1)) /\ UNCHANGED sid
Plan == Length(St.text)
Start1 == Todo(sc, k)
Read ==
  /\ k <= Len(sc.steps) /\ St.type # "json"
  /\ IF Bare(Start1) = "" \/ (IF St.type = "bytes" THEN ~Plan.ok ELSE FALSE) THEN Answer(<<"error">>)
     ELSE IF todo # ""
     THEN LET d == Digit(Ch(todo, 1)) IN
          IF d < 0 \/ d >= Base(St.type) THEN Answer(<<"error">>)
          ELSE num' = MulAdd(num, Base(St.type), d) /\ todo' = Drop(todo, 1) /\ UNCHANGED <<sid, k, res>>
     ELSE IF St.type # "bytes"
     THEN Answer(IF ~Fits(Neg(Start1), num) THEN <<"error">>
                 ELSE <<Decimal(Neg(Start1), num), Written(St.type, Neg(Start1), num)>>)
     ELSE LET all == Times(num, Plan.base, Plan.power)
              v == SubSeq(all, 1, Max2(0, Len(all) - Plan.frac)) IN
          Answer(IF ~Fits(Neg(Start1), v) THEN <<"error">> ELSE <<Decimal(Neg(Start1), v)>>)
Wrapped == k <= Len(sc.steps) /\ St.type = "json" /\ Answer(Json1(St))
Step == Read \/ Wrapped
Done == k > Len(sc.steps)
Outcome == [res |-> res]

(* What is written reads back, digit by digit. *)
RECURSIVE Value(_, _, _)
Value(s, b, d) == IF s = "" THEN d ELSE Value(Drop(s, 1), b, MulAdd(d, b, Digit(Ch(s, 1))))
Safety ==
  /\ num = <<>> \/ num[1] # 0
  /\ (k <= Len(sc.steps) /\ todo = "" /\ num # <<>>) =>
       \A t \in {"hex", "octal", "bytes"} :
          LET w == Written(t, TRUE, num) IN
          Neg(Body(t, w)) /\ Value(Bare(Body(t, w)), Base(t), <<>>) = num
=============================================================================
