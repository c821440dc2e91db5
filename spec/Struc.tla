------------------------------- MODULE Struc -------------------------------
(***************************************************************************)
(* Structured values: name-value pairs set the fields of a struct.  Each   *)
(* use of the option sets the fields it names and leaves the others as     *)
(* they are; the last text given to a field is its value.                  *)
(***************************************************************************)
EXTENDS Text
CONSTANT Scen(_)

VARIABLES sid, ins, k, fields, err
vars == <<sid, ins, k, fields, err>>
sc == Scen(sid)

---------------------------------------------------------------------------
Names == <<"Name", "Count", "Small", "On", "Wait", "Tags", "IP", "link", "Re", "Acc", "NAcc">>
Kinds == <<"str", "int", "uint8", "bool", "dur", "list", "ip", "url", "re", "acc", "acc">>
Zero == <<"", "0", "0", "false", "0s", "", "-", "-", "-", "", "-">>
Given == <<"n0", "5", "0", "true", "1s", "a|b|c|d", "-", "rel/p", "q", "i", "-">>

Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lo == "abcdefghijklmnopqrstuvwxyz"
LowerCh == [c \in Range(Chars(Up)) |-> Ch(Lo, IndexOf(Up, c))]
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE
            (IF Ch(s, 1) \in DOMAIN LowerCh THEN LowerCh[Ch(s, 1)] ELSE Ch(s, 1)) \o Lower(Drop(s, 1))
LowNames == [f \in 1..Len(Names) |-> Lower(Names[f])]
\* the entry for a field: the one with its exact name, or one with other case
EntryFor(m, f) ==
  LET i == FirstIdx(m, LAMBDA r : r[1] = Names[f])
  IN  IF i # 0 THEN i ELSE FirstIdx(m, LAMBDA r : r[4] = LowNames[f])
\* names no field is set from
Unused(m) == {i \in 1..Len(m) : \A f \in 1..Len(Names) : EntryFor(m, f) # i}

StdBools == [t \in {"1", "t", "T", "true", "TRUE", "True"} |-> "true"]
            @@ [t \in {"", "0", "f", "F", "false", "FALSE", "False"} |-> "false"]
\* the field after it is given a text
FromText(kind, was, t) ==
  CASE kind = "str" -> t
    [] kind \in {"int", "uint8"} -> IF t = "" THEN "0" ELSE IntText(kind, t)
    [] kind = "bool" -> Look(StdBools, t)
    [] kind = "dur" -> Look(Durs, t)
    [] kind = "list" -> IF t = "" THEN "" ELSE JoinStr(Plain(t, ",", "", <<>>), "|")
    [] kind = "ip" -> Look(Ips, t)
    [] kind = "url" -> t
    [] kind = "re" -> t
    [] kind = "acc" -> IF t = "bad" THEN "err" ELSE (IF was = "-" THEN "" ELSE was) \o "<" \o t \o ">"
\* the field after it is given a number or a bool
FromInt(kind, n) ==
  CASE kind \in {"str", "int", "uint8", "list"} -> n
    [] kind = "bool" -> IF n = "0" THEN "false" ELSE "true"
    [] kind = "dur" -> n \o (IF n = "0" THEN "s" ELSE "ns")
    [] OTHER -> "err"
FromBool(kind, b) ==
  IF kind = "bool" THEN b ELSE FromInt(kind, IF b = "true" THEN "1" ELSE "0")
\* without conversions, only what has the type of the field
Exact(kind, type, t) ==
  CASE type = "str" -> IF kind = "str" THEN t ELSE "err"
    [] type = "int" -> IF kind \in {"int", "uint8"} THEN t ELSE IF kind = "dur" THEN FromInt(kind, t) ELSE "err"
    [] type = "bool" -> IF kind = "bool" THEN t ELSE "err"
Convert(conv, type, kind, was, t) ==
  IF ~conv THEN Exact(kind, type, t)
  ELSE CASE type = "str" -> FromText(kind, was, t)
         [] type = "int" -> FromInt(kind, t)
         [] type = "bool" -> FromBool(kind, t)
\* the entries (name, text, type, name in lower case) are decoded into the fields
Decoded(v, m, conv) ==
  [f \in 1..Len(Names) |-> LET i == EntryFor(m, f)
                           IN IF i = 0 THEN v[f] ELSE Convert(conv, m[i][3], Kinds[f], v[f], m[i][2])]
\* a text "err" is not in use
Failed(v, m, strict) == (\E f \in 1..Len(v) : v[f] = "err") \/ (strict /\ Unused(m) # {})
TextMap(s, u) ==
  LET whole == s.whole # ""
      m == MapOf(IF whole THEN <<u>> ELSE Split(u, ",", 0), <<"", "">>, <<>>)
  IN  [i \in 1..Len(m) |-> m[i] \o <<"str", Lower(m[i][1])>>]
Typed(s) == [i \in 1..Len(s.in) |-> <<s.in[i][1], s.in[i][3], s.in[i][2], Lower(s.in[i][1])>>]

---------------------------------------------------------------------------
Inputs(s) == IF s.how = "decode" THEN <<Typed(s)>> ELSE [j \in 1..Len(s.uses) |-> TextMap(s, s.uses[j])]
StrucInit(i) ==
  /\ sid = i /\ ins = Inputs(Scen(i)) /\ k = 1 /\ err = ""
  /\ fields = IF Scen(i).init THEN Given ELSE Zero
Step ==
  /\ err = "" /\ k <= Len(ins)
  /\ LET m == ins[k]
         v == Decoded(fields, m, sc.how # "decode" \/ ~sc.strict)
     IN  IF Failed(v, m, sc.strict) THEN err' = "err" /\ UNCHANGED fields
         ELSE fields' = v /\ UNCHANGED err
  /\ k' = k + 1 /\ UNCHANGED <<sid, ins>>

Done == IF err # "" THEN TRUE ELSE k > Len(ins)
Safety ==
  \* a field that no use names keeps its value
  /\ \A f \in 1..Len(Names) : (\A j \in 1..(k - 1) : EntryFor(ins[j], f) = 0)
                                => fields[f] = (IF sc.init THEN Given ELSE Zero)[f]
  \* and with ErrorUnused every name is that of a field
  /\ (sc.strict /\ err = "") => \A j \in 1..(k - 1) : Unused(ins[j]) = {}
Outcome == [err |-> err, v |-> IF err = "" THEN fields ELSE <<>>]
=============================================================================
