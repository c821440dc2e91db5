-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Text converted by the type of an option, and lookups of its value.      *)
(*                                                                         *)
(* Values are texts: whole numbers in decimal; floats in decimal without   *)
(* exponent; durations in nanoseconds; bytes in hexadecimal. Numbers are   *)
(* computed digit by digit, so that 64 bits and more are exact.            *)
(*                                                                         *)
(* Scenario: kind of the value, its initial value, the texts it is given,  *)
(* one by one, on the command line (as a flag or arg; opt: the value is    *)
(* optional), by Set or by SetData, and lookups made afterwards.           *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, val, res, looks
vars == <<sid, sc, pc, todo, val, res, looks>>

Bad == [ok |-> FALSE, errs |-> {"error"}]
Err(e) == [ok |-> FALSE, errs |-> e]
Val(v) == [ok |-> TRUE, v |-> v]

(***************************** Decimal numbers *****************************)
Digits == "0123456789abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower(c) == IF IndexOf(Uppers, c) > 0 THEN Ch(Digits, 10 + IndexOf(Uppers, c)) ELSE c
RECURSIVE LowerAll(_)
LowerAll(s) == IF s = "" THEN "" ELSE Lower(Ch(s, 1)) \o LowerAll(Drop(s, 1))
Digit(c) == IndexOf(Digits, Lower(c)) - 1     \* -1: not a digit
RECURSIVE Norm(_)
Norm(s) == IF s = "" THEN "0" ELSE IF Ch(s, 1) = "0" /\ Len(s) > 1 THEN Norm(Drop(s, 1)) ELSE s
(* s * k + d *)
RECURSIVE MulAdd(_, _, _)
MulAdd(s, k, d) ==
  IF s = "" THEN (IF d = 0 THEN "" ELSE MulAdd("", k, d \div 10) \o ToString(d % 10))
  ELSE LET x == Digit(Ch(s, Len(s))) * k + d IN MulAdd(TakeN(s, Len(s) - 1), k, x \div 10) \o ToString(x % 10)
RECURSIVE Add(_, _, _)
Add(a, b, c) ==
  IF a = "" /\ b = "" THEN (IF c = 0 THEN "" ELSE "1")
  ELSE LET x == (IF a = "" THEN 0 ELSE Digit(Ch(a, Len(a)))) + (IF b = "" THEN 0 ELSE Digit(Ch(b, Len(b)))) + c
           front(s) == IF s = "" THEN "" ELSE TakeN(s, Len(s) - 1)
       IN Add(front(a), front(b), x \div 10) \o ToString(x % 10)
RECURSIVE Leq(_, _)      \* of the same length
Leq(a, b) == IF a = "" THEN TRUE ELSE IF Ch(a, 1) = Ch(b, 1) THEN Leq(Drop(a, 1), Drop(b, 1)) ELSE Digit(Ch(a, 1)) < Digit(Ch(b, 1))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Leq(a, b))
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
RECURSIVE InBase(_, _, _)
InBase(s, base, acc) == IF s = "" THEN Norm(acc) ELSE IF Ch(s, 1) = "_" THEN InBase(Drop(s, 1), base, acc) ELSE InBase(Drop(s, 1), base, MulAdd(acc, base, Digit(Ch(s, 1))))

MaxOf == [int8 |-> "127", int16 |-> "32767", int32 |-> "2147483647", int64 |-> "9223372036854775807", int |-> "9223372036854775807",
          uint8 |-> "255", uint16 |-> "65535", uint32 |-> "4294967295", uint64 |-> "18446744073709551615", uint |-> "18446744073709551615"]
LowestOf == [int8 |-> "128", int16 |-> "32768", int32 |-> "2147483648", int64 |-> "9223372036854775808", int |-> "9223372036854775808"]
Ints == DOMAIN LowestOf
Uints == DOMAIN MaxOf \ Ints
Floats == {"float32", "float64"}

Signed(s) == s # "" /\ Ch(s, 1) \in {"-", "+"}
Sign(s) == IF Signed(s) THEN Ch(s, 1) ELSE ""
Unsigned(s) == IF Signed(s) THEN Drop(s, 1) ELSE s
Minus(sign, v) == IF sign = "-" /\ v # "0" THEN "-" \o v ELSE v

(* Whole numbers as in Go source: a prefix gives the base; an underscore    *)
(* separates digits or follows the prefix                                   *)
Base(t) == IF Len(t) >= 3 /\ Ch(t, 1) = "0" /\ Lower(Ch(t, 2)) \in {"x", "b", "o"}
           THEN [base |-> CASE Lower(Ch(t, 2)) = "x" -> 16 [] Lower(Ch(t, 2)) = "b" -> 2 [] OTHER -> 8, from |-> 3]
           ELSE IF t # "" /\ Ch(t, 1) = "0" THEN [base |-> 8, from |-> 2] ELSE [base |-> 10, from |-> 1]
Whole(t, max) ==
  LET b == Base(t)
      ds == Drop(t, b.from - 1)
      good(c) == Digit(c) >= 0 /\ Digit(c) < b.base
      (* what may come before an underscore: digits, or the prefix *)
      sep(i) == (IF i = 1 THEN b.from > 1 ELSE good(Ch(ds, i - 1))) /\ i < Len(ds) /\ good(Ch(ds, i + 1))
      fine == /\ t # ""
              /\ ds # "" \/ t = "0"
              /\ \A i \in 1..Len(ds) : good(Ch(ds, i)) \/ (Ch(ds, i) = "_" /\ sep(i))
      legible == \E n \in 1..Len(ds) : /\ \A i \in 1..n : good(Ch(ds, i)) \/ Ch(ds, i) = "_"
                                       /\ ~AtMost(InBase(TakeN(ds, n), b.base, ""), max)
  IN IF fine THEN (IF AtMost(InBase(ds, b.base, ""), max) THEN Val(InBase(ds, b.base, "")) ELSE Err({"range"}))
     \* a text that is both too large and malformed can be either
     ELSE IF ds # "" /\ legible THEN Err({"range", "syntax"}) ELSE Err({"syntax"})
WholeOf(k, t) ==
  IF t = "" THEN Err({"empty"})
  ELSE IF k \in Uints THEN Whole(t, MaxOf[k])
  ELSE LET w == Whole(Unsigned(t), IF Sign(t) = "-" THEN LowestOf[k] ELSE MaxOf[k]) IN
       IF w.ok THEN Val(Minus(Sign(t), w.v)) ELSE w

AllDigits(s) == \A i \in 1..Len(s) : Digit(Ch(s, i)) \in 0..9
BigInt(t) == IF Unsigned(t) # "" /\ AllDigits(Unsigned(t)) THEN Val(Minus(Sign(t), Norm(Unsigned(t)))) ELSE Bad

(* Decimal floats: digits, point, digits, exponent *)
RECURSIVE Trim0(_)
Trim0(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN Trim0(TakeN(s, Len(s) - 1)) ELSE s
IndexE(t) == FirstIdx(Chars(t), LAMBDA c : c \in {"e", "E"})
RECURSIVE SmallInt(_)
SmallInt(s) == IF s = "" THEN 0 ELSE SmallInt(TakeN(s, Len(s) - 1)) * 10 + Digit(Ch(s, Len(s)))
(* the whole and fractional digits, with the point moved e places to the right *)
Shift(w, f, e) ==
  IF e >= 0 THEN [w |-> w \o TakeN(f \o Zeros(e), e), f |-> Drop(f \o Zeros(e), e)]
  ELSE LET p == Zeros(0 - e) \o w IN [w |-> TakeN(p, Len(p) + e), f |-> Drop(p, Len(p) + e) \o f]
Plain(w, f) == IF Trim0(f) = "" THEN Norm(w) ELSE Norm(w) \o "." \o Trim0(f)
Float(k, t0) ==
  LET t == Unsigned(t0)
      e == IndexE(t)
      m == IF e = 0 THEN t ELSE TakeN(t, e - 1)
      x == IF e = 0 THEN "0" ELSE Drop(t, e)
      p == IndexOf(m, ".")
      w == IF p = 0 THEN m ELSE TakeN(m, p - 1)
      f == IF p = 0 THEN "" ELSE Drop(m, p)
      n == SmallInt(Unsigned(x)) * (IF Sign(x) = "-" THEN -1 ELSE 1)
      big == CASE k = "float32" -> 39 [] k = "float64" -> 309 [] OTHER -> 100000
      bad == IF k = "bigfloat" THEN Bad ELSE IF t0 = "" THEN Err({"empty"}) ELSE Err({"syntax"})
  IN IF w \o f = "" \/ ~AllDigits(w \o f) \/ Unsigned(x) = "" \/ ~AllDigits(Unsigned(x)) THEN bad
     ELSE IF n >= big /\ Norm(w \o f) # "0" THEN Err({"range"})
     ELSE LET s == Shift(w, f, n) IN Val((IF Sign(t0) = "-" THEN "-" ELSE "") \o Plain(s.w, s.f))

(* Durations: numbers each with a unit *)
Units == <<"ns", "us", "ms", "s", "m", "h">>
UnitOf(t) == CASE StartsWith(t, "ns") -> [m |-> 1, z |-> 0, n |-> 2] [] StartsWith(t, "us") -> [m |-> 1, z |-> 3, n |-> 2] [] StartsWith(t, "ms") -> [m |-> 1, z |-> 6, n |-> 2]
               [] StartsWith(t, "s") -> [m |-> 1, z |-> 9, n |-> 1] [] StartsWith(t, "m") -> [m |-> 6, z |-> 10, n |-> 1] [] StartsWith(t, "h") -> [m |-> 36, z |-> 11, n |-> 1]
               [] OTHER -> [n |-> 0]
RECURSIVE Run(_)       \* how many leading digits
Run(t) == IF t # "" /\ Digit(Ch(t, 1)) \in 0..9 THEN 1 + Run(Drop(t, 1)) ELSE 0
RECURSIVE Spans(_, _)
Spans(t, acc) ==
  IF t = "" THEN Val(Norm(acc))
  ELSE LET w == TakeN(t, Run(t))
           t1 == Drop(t, Len(w))
           point == StartsWith(t1, ".")
           t2 == IF point THEN Drop(t1, 1) ELSE t1
           f == IF point THEN TakeN(t2, Run(t2)) ELSE ""
           t3 == Drop(t2, Len(f))
           u == UnitOf(t3)
           rest == Drop(t3, u.n)
           \* a unit is followed by a digit, a point or nothing
           ends == rest = "" \/ Ch(rest, 1) = "." \/ Digit(Ch(rest, 1)) \in 0..9
           whole == MulAdd(Norm(w), u.m, 0) \o Zeros(u.z)
           fm == MulAdd(f, u.m, 0)      \* may be longer than f
           frac == IF Len(f) <= u.z THEN fm \o Zeros(u.z - Len(f)) ELSE TakeN(fm, Max2(0, Len(fm) - (Len(f) - u.z)))
       IN IF w \o f = "" \/ u.n = 0 \/ ~ends THEN Bad
          ELSE Spans(rest, Add(acc, Add(whole, frac, 0), 0))
Duration(t) ==
  IF Unsigned(t) = "0" THEN Val("0")
  ELSE IF Unsigned(t) = "" THEN Bad
  ELSE LET d == Spans(Unsigned(t), "") IN
       IF ~d.ok THEN Bad ELSE IF AtMost(d.v, IF Sign(t) = "-" THEN LowestOf.int64 ELSE MaxOf.int64) THEN Val(Minus(Sign(t), d.v)) ELSE Bad

RECURSIVE SplitOn(_, _)
SplitOn(t, c) == IF IndexOf(t, c) = 0 THEN <<t>> ELSE <<TakeN(t, IndexOf(t, c) - 1)>> \o SplitOn(Drop(t, IndexOf(t, c)), c)
IP(t) ==
  LET ps == SplitOn(t, ".") IN
  IF t \in {"::1", "::"} THEN Val(t)
  ELSE IF Len(ps) = 4 /\ \A i \in 1..4 : ps[i] # "" /\ AllDigits(ps[i]) /\ AtMost(ps[i], "255") /\ (Len(ps[i]) > 1 => Ch(ps[i], 1) # "0") THEN Val(t) ELSE Bad

Hex(t) == IF Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : Digit(Ch(t, i)) \in 0..15 THEN Val(LowerAll(t)) ELSE Bad
Bool(t) == LET l == LowerAll(t) IN
           IF l \in {"", "1", "true", "on", "t"} THEN Val("true") ELSE IF l \in {"0", "false", "off", "f"} THEN Val("false") ELSE Bad
(* Of these, texts that the standard library rejects *)
Url(t) == IF t \in {":x", "%zz", "http://h:p", "http://[::1"} THEN Bad ELSE Val(t)
Regexp(t) == IF t \in {"(", "*", "[", "a**"} THEN Bad ELSE Val(t)

Conv(k, t) ==
  CASE k \in DOMAIN MaxOf -> WholeOf(k, t)
    [] k \in Floats \cup {"bigfloat"} -> Float(k, t)
    [] k = "bigint" -> BigInt(t) [] k = "duration" -> Duration(t) [] k = "ip" -> IP(t) [] k = "bytes" -> Hex(t)
    [] k = "bool" -> Bool(t) [] k = "url" -> Url(t) [] k = "regexp" -> Regexp(t) [] k = "string" -> Val(t)

(********************************* Machine *********************************)
Zero(k) == CASE k \in {"string", "bytes", "list", "map", "nvs"} -> "" [] k = "bool" -> "false" [] k \in {"bigint", "bigfloat", "ip", "url", "regexp", "value", "interface", "file", "fileset", "nv"} -> "nil" [] OTHER -> "0"
OneOf(k) == CASE k = "duration" -> "1000000000" [] k = "ip" -> "127.0.0.1" [] OTHER -> "1"
App == sc.via \in {"argv", "run", "sep"}

ConvInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ pc = "convert" /\ todo = Scen(id).texts /\ res = "ok" /\ looks = <<>>
  /\ val = IF Scen(id).init = "" THEN Zero(Scen(id).kind) ELSE Conv(Scen(id).kind, Scen(id).init).v

(* Text is added to strings and bytes by Set; each use on the command line replaces a string *)
Combine(v) == IF sc.kind = "bytes" THEN val \o v
              ELSE IF sc.kind = "string" /\ ~App /\ val # "" THEN val \o " " \o v
              ELSE v
Convert ==
  /\ pc = "convert" /\ UNCHANGED <<sid, sc, looks>>
  /\ IF todo = <<>> THEN pc' = "look" /\ todo' = sc.looks /\ UNCHANGED <<val, res>>
     ELSE LET t == Head(todo)
              \* the contents of data are the bytes themselves, except for text
              c == IF sc.opt /\ t = "" THEN Val(OneOf(sc.kind)) ELSE IF sc.kind = "bytes" /\ sc.via \in {"databytes", "datareader"} THEN [ok |-> TRUE, v |-> "unspecified"] ELSE Conv(sc.kind, t)
          IN IF c.ok THEN todo' = Tail(todo) /\ val' = Combine(c.v) /\ UNCHANGED <<pc, res>>
             ELSE pc' = "done" /\ todo' = <<>> /\ UNCHANGED val /\ \E e \in c.errs : res' = e

(* A number looked up as a narrower one that cannot hold it is unspecified; so is a fraction as another float *)
Fits(k, v) == CASE k \in Uints -> AtMost(v, MaxOf[k]) [] k \in Ints -> AtMost(Unsigned(v), IF Sign(v) = "-" THEN LowestOf[k] ELSE MaxOf[k])
                [] k \in Floats -> IndexOf(v, ".") = 0 /\ Len(Unsigned(v)) < 7 [] OTHER -> TRUE
Found(l) == IF l.as = "missing" \/ l.via \in {"nilfunc", "nilvalues"} THEN Zero(l.acc)
            ELSE IF l.acc \in {sc.kind, "value", "interface"} \/ Fits(l.acc, val) THEN val ELSE "*"
Look ==
  /\ pc = "look" /\ UNCHANGED <<sid, sc, val, res>>
  /\ IF todo = <<>> THEN pc' = "done" /\ UNCHANGED <<todo, looks>>
     ELSE todo' = Tail(todo) /\ looks' = Append(looks, Found(Head(todo))) /\ UNCHANGED pc
Done == pc = "done"
Step == Convert \/ Look

Outcome == [res |-> res, value |-> val, looks |-> looks]
Agrees(obs) ==
  /\ "res" \in DOMAIN obs /\ obs.res = res /\ Len(obs.looks) = Len(looks)
  /\ (IndexOf(val, "u") > 0 /\ sc.kind = "bytes") \/ (obs.value = val /\ \A i \in 1..Len(looks) : looks[i] = "*" \/ obs.looks[i] = looks[i])

Safety ==
  \* what has been converted is within the type, and reads as itself
  /\ sc.kind \in DOMAIN MaxOf => Fits(sc.kind, val)
  /\ sc.kind \in Ints \cup Floats \cup {"bigint", "bigfloat"} /\ val # "nil" => Conv(sc.kind, val) = Val(val)
  /\ res # "ok" => looks = <<>>
=============================================================================
