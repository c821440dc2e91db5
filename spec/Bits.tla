------------------------------- MODULE Bits -------------------------------
(***************************************************************************)
(* Sets of bits that act as their parts: features that are mapped to       *)
(* actions, options, filters; and the texts that stand for these.          *)
(*                                                                         *)
(* A value takes from the map the feature of most bits that it contains    *)
(* (of those, the one with the highest bits), is left without its bits,    *)
(* and goes on until it contains none.  The text of a value is written by  *)
(* the same rule over the names.                                           *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, k, left, ran, res
vars == <<sid, k, left, ran, res>>
sc == Scen(sid)
St(i) == sc.steps[i]

---------------------------------------------------------------------------
RECURSIVE Value(_)
Value(b) == IF b = {} THEN 0 ELSE LET x == CHOOSE y \in b : TRUE IN 2 ^ x + Value(b \ {x})
Heavier(a, b) == Cardinality(a) > Cardinality(b) \/ (Cardinality(a) = Cardinality(b) /\ Value(a) > Value(b))
\* the next feature of a value, or 0
Next1(keys, v) ==
  LET in == {i \in 1..Len(keys) : Range(keys[i]) \subseteq v}
  IN  IF in = {} THEN 0 ELSE CHOOSE i \in in : \A j \in in : i = j \/ Heavier(Range(keys[i]), Range(keys[j]))

---------------------------------------------------------------------------
OptionNames == <<"HIDDEN", "REQUIRED", "EXITS", "MUST_EXIST", "SKIP_FLAG_PARSING", "DISALLOW_FLAGS_AFTER_ARGS", "WORKING_DIRECTORY",
  "OPTIONAL", "NO", "NON_PERSISTENT", "DISABLE_SPLITTING", "MERGE", "RIGHT_TO_LEFT", "PREVENT_SETUP", "EACH_OCCURRENCE",
  "FILE_REFERENCE", "ALLOW_FILE_REFERENCE", "SORTED_FLAGS", "SORTED_COMMANDS", "SORTED_EXPRS", "IMPLIED_ACTION", "VISIBLE",
  "DISABLE_AUTO_VISIBILITY", "TRIGGER">>
FilterNames == <<"ANY_FLAG", "ANY_ARG", "ANY_COMMAND", "SEEN", "ROOT_COMMAND", "HAS_VALUE">>
Anything_ == {"ANY_FLAG", "ANY_ARG", "ANY_COMMAND"}
TimingNames == {"INITIAL", "BEFORE", "ACTION", "AFTER", "VALIDATOR", "IMPLICIT_VALUE"}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Written(t, set) ==
  CASE t = "option" -> JoinStr(SelectSeq(OptionNames, LAMBDA n : n \in set), ", ")
    [] t = "filter" -> LET any == Anything_ \subseteq set
                           rest == IF any THEN set \ Anything_ ELSE set
                       IN  JoinStr((IF any THEN <<"ANYTHING">> ELSE <<>>) \o SelectSeq(Rev(FilterNames), LAMBDA n : n \in rest), ", ")
    [] OTHER -> CHOOSE n \in set : TRUE

RECURSIVE TrimLeft(_), TrimRight(_), Pieces(_)
TrimLeft(s) == IF StartsWith(s, " ") THEN TrimLeft(Drop(s, 1)) ELSE s
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN TrimRight(TakeN(s, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))
Pieces(s) == LET i == IndexOf(s, ",") IN IF i = 0 THEN <<s>> ELSE <<TakeN(s, i - 1)>> \o Pieces(Drop(s, i))
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower(s) == JoinStr([i \in 1..Len(s) |-> LET p == IndexOf(Upper, Ch(s, i)) IN IF p = 0 THEN Ch(s, i) ELSE Ch("abcdefghijklmnopqrstuvwxyz", p)], "")

\* sets as the harness shows them: names in order, as text
Order == <<"ANY_ARG", "ANY_COMMAND", "ANY_FLAG", "DISABLE_AUTO_VISIBILITY", "DISABLE_SPLITTING", "DISALLOW_FLAGS_AFTER_ARGS", "ALLOW_FILE_REFERENCE",
  "EACH_OCCURRENCE", "EXITS", "FILE_REFERENCE", "HAS_VALUE", "HIDDEN", "IMPLIED_ACTION", "MERGE", "MUST_EXIST", "NO", "NON_PERSISTENT", "OPTIONAL",
  "PREVENT_SETUP", "REQUIRED", "RIGHT_TO_LEFT", "ROOT_COMMAND", "SEEN", "SKIP_FLAG_PARSING", "SORTED_COMMANDS", "SORTED_EXPRS", "SORTED_FLAGS",
  "TRIGGER", "VISIBLE", "WORKING_DIRECTORY">>
AsText(set) == JoinStr(SelectSeq(<<"ALLOW_FILE_REFERENCE">> \o SelectSeq(Order, LAMBDA n : n # "ALLOW_FILE_REFERENCE"), LAMBDA n : n \in set), ",")
Meaning(t, n) ==
  CASE t = "option" -> IF n \in Range(OptionNames) THEN {n} ELSE {}
    [] t = "filter" -> IF n = "ANYTHING" THEN Anything_ ELSE IF n \in Range(FilterNames) THEN {n} ELSE {}
ReadSet(t, text) == LET p == Pieces(text) IN UNION {Meaning(t, Trim(p[i])) : i \in 1..Len(p)}
Read(t, set, text) ==
  CASE t = "option" -> AsText(set \cup ReadSet(t, text))                                            \* adds to what there was
    [] t = "filter" -> AsText(IF ReadSet(t, text) = {} THEN set ELSE ReadSet(t, text))
    [] t = "timing" -> IF Trim(text) \in TimingNames THEN Trim(text) ELSE CHOOSE n \in set : TRUE
    [] t = "mode" -> LET m == Lower(text) IN
                     CASE m = "auto" -> "auto" [] m \in {"always", "true", "on", ""} -> "always"
                       [] m \in {"never", "false", "off"} -> "never" [] OTHER -> "error"

---------------------------------------------------------------------------
Bit(i) == IF i <= Len(sc.steps) /\ St(i).do = "features" THEN Range(St(i).v) ELSE {}
BitsInit(i) == sid = i /\ k = 1 /\ ran = <<>> /\ res = <<>>
               /\ left = (IF Scen(i).steps # <<>> /\ Scen(i).steps[1].do = "features" THEN Range(Scen(i).steps[1].v) ELSE {})
Answered(x) == res' = Append(res, x) /\ k' = k + 1 /\ ran' = <<>> /\ left' = Bit(k + 1) /\ UNCHANGED sid
Num(i) == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14">>[i]
Feature ==
  /\ k <= Len(sc.steps) /\ St(k).do = "features"
  /\ LET f == Next1(St(k).keys, left) IN
     IF f = 0 THEN Answered(JoinStr(ran, " "))
     ELSE ran' = Append(ran, Num(f)) /\ left' = left \ Range(St(k).keys[f]) /\ UNCHANGED <<sid, k, res>>
Texts == /\ k <= Len(sc.steps)
         /\ St(k).do # "features"
         /\ Answered(IF St(k).do = "write" THEN Written(St(k).type, Range(St(k).set)) ELSE Read(St(k).type, Range(St(k).set), St(k).text))
Step == Feature \/ Texts
Done == k > Len(sc.steps)
Outcome == [err |-> "ok", res |-> res]

(* what is written reads back; and no part runs twice *)
Safety ==
  /\ \A i \in 1..Len(ran) : \A j \in 1..Len(ran) : i # j => ran[i] # ran[j]
  /\ IF Done THEN TRUE ELSE
     LET s == Range(St(k).set) IN
     IF St(k).do # "write" THEN TRUE
     ELSE IF St(k).type \in {"option", "filter"} THEN Read(St(k).type, {}, Written(St(k).type, s)) = AsText(s)
     ELSE \A n \in TimingNames \cup {"auto"} : (St(k).type = "timing" \/ n = "auto") => Read(St(k).type, {n}, Written(St(k).type, s)) = Written(St(k).type, s)
=============================================================================
