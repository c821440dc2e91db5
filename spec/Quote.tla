------------------------------- MODULE Quote -------------------------------
(***************************************************************************)
(* Shell words.  A text is read one character at a time, as a POSIX shell  *)
(* reads a simple command without expansions; what Split gives is what was *)
(* read, and what Join and Quote give must be read as what they were given *)
(* (with nothing that a shell would treat specially).  Lists and maps are  *)
(* read by the same machine with another alphabet: a separator, which a    *)
(* backslash escapes.                                                      *)
(*                                                                         *)
(* Scenario: [op, text, list, sep, n, kind]                                *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANTS Scen(_), Text(_)   \* Text: what is read
VARIABLES sid, sc, pc, pos, word, words, special
vars == <<sid, sc, pc, pos, word, words, special>>

Words == {"split", "join", "files", "quote", "nv"}
Lists == {"list", "map"}
Blank == {" ", "\t", "\n"}

RECURSIVE TrimL(_), TrimR(_), JoinMap(_, _, _), Unescape(_, _)
White == {" ", "\t", "\n", "\r"}
TrimL(s) == IF s = "" THEN s ELSE IF Ch(s, 1) \in White THEN TrimL(Drop(s, 1)) ELSE s
TrimR(s) == IF s = "" THEN s ELSE IF Ch(s, Len(s)) \in White THEN TrimR(TakeN(s, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
In == IF sc.op \in Lists THEN Trim(Text(sid)) ELSE Text(sid)
Sep == IF sc.op = "map" THEN "," ELSE sc.sep
Limit == IF sc.op = "map" THEN -1 ELSE sc.n

QuoteInit(i) ==
  /\ sid = i /\ sc = Scen(i) /\ pos = 1 /\ word = "" /\ words = <<>> /\ special = FALSE
  /\ pc = IF sc.op = "value" THEN "done" ELSE IF sc.op \in Lists THEN "list" ELSE "gap"

------------------------------------------------------------------------------
AtEnd == pos > Len(In)
C == Ch(In, pos)
(* unquoted, these mean something to a shell *)
Special(c) == \/ c \in {"|", "&", ";", "<", ">", "(", ")", "$", "`", "*", "?", "["}
              \/ c \in {"#", "~"} /\ pc = "gap"
Go(m) == pc' = m /\ pos' = pos + 1
Keep == UNCHANGED <<word, words>>
Add(m, s) == Go(m) /\ word' = word \o s /\ UNCHANGED words
End == pc' = "done" /\ UNCHANGED pos
Bad(e) == pc' = "e:" \o e /\ words' = <<>> /\ UNCHANGED <<pos, word>>
Closed(m) == m /\ words' = Append(words, word) /\ word' = ""

Unquoted ==   \* between words ("gap") or within one ("raw")
  /\ pc \in {"gap", "raw"}
  /\ IF AtEnd THEN IF pc = "raw" THEN Closed(End) ELSE End /\ Keep
     ELSE CASE C \in Blank -> IF pc = "raw" THEN Closed(Go("gap")) ELSE Go("gap") /\ Keep
            [] C = "'" -> Go("single") /\ Keep
            [] C = "\"" -> Go("double") /\ Keep
            [] C = "\\" -> Go(IF pc = "gap" THEN "gapesc" ELSE "rawesc") /\ Keep
            [] OTHER -> Add("raw", C)
  /\ special' = (special \/ (IF AtEnd THEN FALSE ELSE Special(C)))
Escaped ==    \* after a backslash: a newline is no character at all
  /\ pc \in {"gapesc", "rawesc"} /\ UNCHANGED special
  /\ IF AtEnd THEN Bad("escape")
     ELSE IF C = "\n" THEN Go(IF pc = "gapesc" THEN "gap" ELSE "raw") /\ Keep ELSE Add("raw", C)
Single ==
  /\ pc = "single" /\ UNCHANGED special
  /\ IF AtEnd THEN Bad("single") ELSE IF C = "'" THEN Go("raw") /\ Keep ELSE Add("single", C)
Double ==
  /\ pc = "double"
  /\ IF AtEnd THEN Bad("double")
     ELSE IF C = "\"" THEN Go("raw") /\ Keep ELSE IF C = "\\" THEN Go("dblesc") /\ Keep ELSE Add("double", C)
  /\ special' = (special \/ (IF AtEnd THEN FALSE ELSE C \in {"$", "`"}))
DoubleEsc ==
  /\ pc = "dblesc" /\ UNCHANGED special
  /\ IF AtEnd THEN Bad("double")
     ELSE IF C = "\n" THEN Go("double") /\ Keep
     ELSE IF C \in {"$", "`", "\"", "\\"} THEN Add("double", C) ELSE Add("double", "\\" \o C)

(* Lists: an escaped separator is part of the item; the last item has the rest *)
Here(s) == StartsWith(Drop(In, pos - 1), s)
Last == Limit >= 0 /\ Len(words) + 1 >= Limit
List ==
  /\ pc = "list" /\ UNCHANGED special
  /\ IF AtEnd THEN IF In = "" THEN End /\ Keep ELSE Closed(End)
     ELSE IF Here("\\" \o Sep) THEN /\ word' = word \o Sep /\ pos' = pos + 1 + Len(Sep) /\ UNCHANGED <<pc, words>>
     ELSE IF Here(Sep) /\ ~Last THEN /\ words' = Append(words, word) /\ word' = "" /\ pos' = pos + Len(Sep) /\ UNCHANGED pc
     ELSE word' = word \o C /\ pos' = pos + 1 /\ UNCHANGED <<pc, words>>

Step == UNCHANGED <<sid, sc>> /\ (Unquoted \/ Escaped \/ Single \/ Double \/ DoubleEsc \/ List)
Done == pc = "done" \/ StartsWith(pc, "e:")

------------------------------------------------------------------------------
(* Maps: an item without "=" belongs to the value before it *)
Unescape(s, c) ==
  IF s = "" THEN "" ELSE IF StartsWith(s, "\\" \o c) THEN c \o Unescape(Drop(s, 2), c)
  ELSE Ch(s, 1) \o Unescape(Drop(s, 1), c)
EqAt(s) ==   \* the first "=" that isn't escaped, or 0
  LET P == {i \in 1..Len(s) : Ch(s, i) = "=" /\ (IF i = 1 THEN TRUE ELSE Ch(s, i - 1) # "\\")}
  IN  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
JoinMap(items, k, m) ==
  IF items = <<>> THEN m
  ELSE LET s == Trim(Unescape(Head(items), ","))
           e == EqAt(s)
           key == IF e = 0 THEN k ELSE Unescape(TakeN(s, e - 1), "=")
           was == IF k \in DOMAIN m THEN m[k] ELSE ""
           val == IF s = "" THEN was ELSE IF e = 0 THEN was \o "," \o Unescape(s, "=") ELSE Unescape(Drop(s, e), "=")
       IN  JoinMap(Tail(items), key, (key :> val) @@ m)
MapOf == JoinMap(words, "", [x \in {} |-> ""])
Pairs(m) == LET S == DOMAIN m IN {k \o " => " \o m[k] : k \in S}

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

(* Other values *)
Hex == ("a" :> "61") @@ ("b" :> "62") @@ (" " :> "20") @@ ("'" :> "27") @@ ("z" :> "7a") @@ ("0" :> "30")
RECURSIVE SortStr(_), HexOf(_)
HexOf(s) == IF s = "" THEN "" ELSE Hex[Ch(s, 1)] \o HexOf(Drop(s, 1))
Order == <<"a", "b", "c">>
SortStr(ss) == SelectSeq(Order, LAMBDA x : x \in Range(ss))
ValueText ==
  CASE sc.kind = "nil" -> ""
    [] sc.kind = "strs" -> JoinStr(sc.list, ",")
    [] sc.kind = "map" -> JoinStr([i \in 1..Len(SortStr(sc.list)) |-> SortStr(sc.list)[i] \o "=v" \o SortStr(sc.list)[i]], ",")
    [] sc.kind = "nvs" -> JoinStr([i \in 1..Len(sc.list) |-> sc.list[i] \o "=v"], ",")
    [] sc.kind = "bytes" -> HexOf(sc.text)
    [] OTHER -> sc.text

Given == CASE sc.op \in {"join", "files"} -> sc.list [] sc.op = "quote" -> <<sc.text>> [] sc.op = "nv" -> <<sc.list[1] \o "=" \o sc.list[2]>>
           [] OTHER -> <<>>
Err == IF pc = "done" THEN "" ELSE Drop(pc, 2)
Outcome ==
  CASE sc.op = "value" -> [text |-> ValueText]
    [] sc.op = "list" -> [words |-> words]
    [] sc.op = "map" -> [bag |-> SetToSeq(Pairs(MapOf))]
    [] sc.op = "split" -> [text |-> sc.text, words |-> words, err |-> Err]
    [] OTHER -> [words |-> Given, err |-> ""]
(* o.text is what was read *)
Agrees(o) ==
  CASE sc.op = "map" -> DOMAIN o = {"bag"} /\ (IF DOMAIN o = {"bag"} THEN Range(o.bag) = Pairs(MapOf) /\ Len(o.bag) = Cardinality(DOMAIN MapOf) ELSE FALSE)
    [] sc.op \in {"list", "value", "split"} -> o = Outcome
    [] OTHER -> /\ pc = "done" /\ ~special /\ words = Given
                /\ DOMAIN o = {"text", "words", "err"}
                /\ (IF DOMAIN o = {"text", "words", "err"} THEN o.words = Given /\ o.err = "" ELSE FALSE)

(* a quoting that is known to be right is read as what was quoted *)
RECURSIVE Quoted1(_)
Quoted1(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "'" THEN "'\\''" ELSE Ch(s, 1)) \o Quoted1(Drop(s, 1))
Quoted(s) == "'" \o Quoted1(s) \o "'"
JoinedRef(l) == JoinStr([i \in 1..Len(l) |-> Quoted(l[i])], " ")
Safety ==
  /\ pos <= Len(In) + 1
  /\ pc = "done" /\ sc.op = "split" /\ sc.kind = "ref" => words = sc.list /\ ~special
  /\ pc = "list" => ~Last \/ Len(words) + 1 = Limit
=============================================================================
