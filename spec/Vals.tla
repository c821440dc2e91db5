------------------------------- MODULE Vals -------------------------------
(***************************************************************************)
(* The value of one option (a flag or an argument): the uses on the        *)
(* command line combine into it by the kind of the value, and when there   *)
(* are none it comes from the implicit sources in their order.  Then the   *)
(* option's Action runs, once, or once for each use with EachOccurrence.   *)
(*                                                                         *)
(* A value is shown as rows: <<<<text>>>> for a single value, one row per  *)
(* item for lists, <<name, text>> rows for maps and name/value pairs.      *)
(***************************************************************************)
EXTENDS Text
CONSTANT Scen(_)

VARIABLES sid, pc, k, val, cnt, impl, cur, acts, err
vars == <<sid, pc, k, val, cnt, impl, cur, acts, err>>

sc == Scen(sid)
Opt(s, o) == o \in Range(s.opts)

---------------------------------------------------------------------------
\* the value after text t is set; whole: separators in t have no meaning
SetText(kind, v, t, whole) ==
  LET pieces == IF whole THEN <<t>> ELSE Split(t, ",", 0) IN
  CASE kind \in {"str", "none"} -> Ok(<<<<IF v = <<>> \/ v[1][1] = "" THEN t ELSE v[1][1] \o " " \o t>>>>)
    [] kind \in {"list", "nonel"} -> Ok(v \o Rows(pieces))
    [] kind = "map" -> Ok(Merge(v, MapOf(pieces, <<"", "">>, <<>>)))
    [] kind = "nvs" -> AddPairs(v, pieces)
    [] kind \in {"nv", "nvf"} ->
         IF v[1][1] # "" THEN Ok(<<<<v[1][1], t>>>>)
         ELSE LET p == Pair(t) IN
              Ok(IF p = <<>> THEN <<<<"", "true">>>> ELSE IF Len(p) = 1 THEN <<<<p[1], "true">>>> ELSE <<p>>)
    [] kind = "cust" -> IF t = "bad" THEN No(v) ELSE Ok(v \o Rows(IF whole THEN <<t>> ELSE Plain(t, "+", "", <<>>)))
    [] kind = "acc" -> IF t = "bad" THEN No(v) ELSE Ok(Append(v, <<t>>))
    [] kind = "fset" -> Ok(Append(v, <<t>>))
    [] kind = "fil" -> Ok(<<<<t>>>>)
    [] kind = "text" -> IF t = "bad" THEN No(v) ELSE Ok(<<<<"<" \o t \o ">">>>>)
    [] kind = "bytes" -> IF Look(Hex, t) = "err" THEN No(v) ELSE Ok(<<<<v[1][1] \o Hex[t]>>>>)
    [] OTHER -> IF Parsed(kind, t) = "err" THEN No(v) ELSE Ok(<<<<Parsed(kind, t)>>>>)

\* the value after the contents of files are set as one text
Keep(l) == l # "" /\ Ch(l, 1) \notin {";", "#"}
SetContents(kind, v, t, whole) ==
  CASE kind = "fset" -> LET ls == Plain(t, "\n", "", <<>>)
                        IN  Ok(v \o Rows(SelectSeq([i \in 1..Len(ls) |-> Trim(ls[i])], Keep)))
    [] kind = "bytes" -> Ok(<<<<v[1][1] \o t>>>>)
    [] OTHER -> SetText(kind, v, t, kind # "cust" \/ whole)

\* no value of this kind yet
Zero(kind) ==
  CASE kind \in {"str", "none", "bytes", "fil", "text"} -> <<<<"">>>>
    [] kind \in {"nv", "nvf"} -> <<<<"", "">>>>
    [] kind \in Ints \cup {"float32", "float64"} -> <<<<"0">>>>
    [] kind = "dur" -> <<<<"0s">>>>
    [] kind = "bool" -> <<<<"false">>>>
    [] OTHER -> <<>>
Initial(s) == IF s.init = <<>> THEN Zero(s.kind) ELSE s.init

Resettable == {"str", "none", "nonel", "list", "map", "nvs", "nv", "nvf", "cust", "fset"}
\* what the first use, or an implicit source, starts from
Start(s, v) == IF Opt(s, "Merge") \/ s.kind \notin Resettable THEN v ELSE Zero(s.kind)
\* what a later use starts from: only single values start anew; the values of an argument belong together
Again(s, v) == IF s.tgt = "flag" /\ ~Opt(s, "Merge") /\ s.kind \in {"str", "none", "nv", "nvf"} THEN Zero(s.kind) ELSE v

Whole(s) == Opt(s, "DisableSplitting")
HasOptional(s) == s.optv # <<>> \/ Opt(s, "Optional")
OptionalOf(s) ==
  IF s.optv # <<>> THEN <<<<s.optv[1]>>>>
  ELSE IF s.kind = "dur" THEN <<<<"1s">>>> ELSE IF s.kind = "bool" THEN <<<<"true">>>> ELSE <<<<"1">>>>
SetOne(s, v, t) == IF t = "" /\ HasOptional(s) THEN Ok(OptionalOf(s)) ELSE SetText(s.kind, v, t, Whole(s))
RECURSIVE SetAll(_, _, _)
SetAll(s, v, ts) ==
  IF ts = <<>> THEN Ok(v)
  ELSE LET r == SetOne(s, v, Head(ts)) IN IF ~r.ok THEN r ELSE SetAll(s, r.v, Tail(ts))

---------------------------------------------------------------------------
(* files *)
FileAt(s, name) == FirstIdx(s.fs, LAMBDA f : f[1] = name)
Exists(s, name) ==
  \/ name = "." \/ FileAt(s, name) > 0
  \/ \E i \in 1..Len(s.fs) : StartsWith(s.fs[i][1], name \o "/")
Contents(s, name) == s.fs[FileAt(s, name)][2]

\* one use on the command line, from the value it starts from
Label(s) == IF s.tgt = "arg" THEN "<" \o s.name \o ">" ELSE "--" \o s.name
\* The transform in effect (the options come after the actions in Uses), and what it makes of one use: raw is
\* the name followed by the values.  Its result is a text, or data read from a file.
Transform(s) ==
  IF Opt(s, "FileReference") THEN "file" ELSE IF Opt(s, "AllowFileReference") THEN "atfile"
  ELSE IF s.kind = "nvf" THEN "vatfile" ELSE IF s.tr = <<>> THEN "" ELSE s.tr[Len(s.tr)]
Made(form, t) == [ok |-> TRUE, form |-> form, t |-> t]
Broken == [ok |-> FALSE, form |-> "", t |-> ""]
Read(s, names) ==
  IF \E i \in 1..Len(names) : names[i].file /\ FileAt(s, names[i].t) = 0 THEN Broken
  ELSE Made("data", JoinStr([i \in 1..Len(names) |-> IF names[i].file THEN Contents(s, names[i].t) ELSE names[i].t], ""))
Applied(s, fn, raw) ==
  LET ts == Tail(raw) IN
  CASE fn = "text" -> Made("text", JoinStr(raw, "~"))
    [] fn \in {"data", "reader"} -> Made("data", JoinStr(raw, "~"))
    [] fn = "values" -> IF \E i \in 1..Len(ts) : ts[i] = "bad" THEN Broken ELSE Made("text", JoinStr(ts, "+"))
    [] fn = "file" -> Read(s, [i \in 1..Len(ts) |-> [file |-> TRUE, t |-> ts[i]]])
    [] fn \in {"atfile", "nilfile"} ->
         Read(s, [i \in 1..Len(ts) |-> IF StartsWith(ts[i], "@") THEN [file |-> TRUE, t |-> Drop(ts[i], 1)]
                                       ELSE [file |-> FALSE, t |-> ts[i]]])
\* only the part after the first unescaped = is transformed; the name, and escapes, stay as they are
Part(fn) == IF StartsWith(fn, "v") /\ fn # "values" THEN Drop(fn, 1) ELSE ""
RECURSIVE Protect(_, _)
Protect(t, c) == IF t = "" THEN "" ELSE (IF StartsWith(t, "\\" \o c) THEN "\\\\" \o c \o Protect(Drop(t, 2), c)
                                        ELSE Ch(t, 1) \o Protect(Drop(t, 1), c))
RECURSIVE Escape(_, _)
Escape(t, c) == IF t = "" THEN "" ELSE (IF Ch(t, 1) = c THEN "\\" \o c ELSE Ch(t, 1)) \o Escape(Drop(t, 1), c)
Rejoin(nm, t) == Escape(Protect(nm, ","), "=") \o "=" \o Protect(Protect(t, "="), ",")
UseOf(s, v, ts) ==
  LET fn == Transform(s)
      p == Pair(ts[1])
      nm == IF p = <<>> THEN "" ELSE p[1]
      rest == IF Len(p) = 2 THEN <<p[2]>> \o Tail(ts) ELSE Tail(ts)
      r == IF Part(fn) = "" THEN Applied(s, fn, <<Label(s)>> \o ts)
           ELSE IF rest = <<>> THEN Made("text", Escape(Protect(nm, ","), "="))
           ELSE LET q == Applied(s, Part(fn), <<nm>> \o rest)
                IN  IF q.ok THEN Made("text", Rejoin(nm, q.t)) ELSE q
  IN  CASE fn = "" -> SetAll(s, v, ts)
        [] OTHER ->
             IF ~r.ok THEN No(v)
             ELSE IF r.form = "data" \/ s.kind = "fset" THEN SetContents(s.kind, v, r.t, Whole(s))
             ELSE SetText(s.kind, v, r.t, s.kind # "cust" \/ Whole(s))

---------------------------------------------------------------------------
(* uses, as the command line is bound: one group per use of a flag, one per value of an argument *)
RECURSIVE Singles(_)
Singles(us) == IF us = <<>> THEN <<>>
               ELSE [i \in 1..Len(us[1].v) |-> <<us[1].v[i]>>] \o Singles(Tail(us))
Groups(s) == IF s.tgt = "arg" THEN Singles(s.uses)
             ELSE [i \in 1..Len(s.uses) |-> IF s.uses[i].v = <<>> THEN <<"">> ELSE s.uses[i].v]
RawOcc(s) == FlattenSeq(Groups(s))
RawAll(s) == FlattenSeq([i \in 1..Len(Groups(s)) |-> <<Label(s)>> \o Groups(s)[i]])

(* implicit sources *)
Upper == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", o |-> "O", p |-> "P", t |-> "T", x |-> "X", y |-> "Y"]
RECURSIVE EnvName(_)
EnvName(n) == IF n = "" THEN "" ELSE (IF Ch(n, 1) = "-" THEN "_" ELSE Upper[Ch(n, 1)]) \o EnvName(Drop(n, 1))
RECURSIVE Expand(_, _, _)
Expand(v, nm, first) ==  \* {} stands for the option's name, set apart by underscores
  IF v = "" THEN ""
  ELSE IF StartsWith(v, "{}")
       THEN (IF first THEN "" ELSE "_") \o nm \o (IF Len(v) > 2 THEN "_" ELSE "") \o Expand(Drop(v, 2), nm, FALSE)
       ELSE Ch(v, 1) \o Expand(Drop(v, 1), nm, FALSE)
EnvAt(s, name) == FirstIdx(s.env, LAMBDA e : e[1] = name)
FirstEnv(s) ==
  LET nm == EnvName(s.name)
      full == [i \in 1..Len(s.vars) |-> Expand(s.vars[i], nm, TRUE)]
      i == FirstIdx(full, LAMBDA n : IF EnvAt(s, n) = 0 THEN FALSE ELSE s.env[EnvAt(s, n)][2] # "")
  IN  IF i = 0 THEN <<>> ELSE <<s.env[EnvAt(s, full[i])][2]>>
FromFile(s) == IF s.file # "" /\ FileAt(s, s.file) > 0 THEN <<Contents(s, s.file)>> ELSE <<>>
OwnSource(s) == IF s.uimp # <<>> THEN s.uimp ELSE IF FirstEnv(s) # <<>> THEN FirstEnv(s) ELSE FromFile(s)
Implied(s) == IF s.z THEN s.imp ELSE <<>>

---------------------------------------------------------------------------
(* canonical order of map rows *)
Alphabet == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Less(_, _)
Less(a, b) ==
  IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN Less(Drop(a, 1), Drop(b, 1))
  ELSE IndexOf(Alphabet, Ch(a, 1)) < IndexOf(Alphabet, Ch(b, 1))
Sorted(m) == SortSeq(m, LAMBDA p, q : Less(p[1], q[1]))
Show(s, v) == IF s.kind = "map" THEN Sorted(v) ELSE v

---------------------------------------------------------------------------
ValsInit(i) ==
  /\ sid = i /\ pc = "use" /\ k = 1
  /\ val = Initial(Scen(i)) /\ cnt = 0 /\ impl = FALSE
  /\ cur = <<>> /\ acts = <<>> /\ err = "ok"

Fail == pc' = "end" /\ err' = "other"

\* the next use on the command line
Use ==
  /\ pc = "use"
  /\ IF k > Len(Groups(sc))
     THEN /\ IF sc.tgt = "arg" /\ sc.kind = "nv" /\ cnt = 0 THEN Fail  \* asks for a name
             ELSE pc' = "own" /\ UNCHANGED err
          /\ UNCHANGED <<k, val, cnt>>
     ELSE LET r == UseOf(sc, IF k = 1 THEN Start(sc, val) ELSE Again(sc, val), Groups(sc)[k])
          IN /\ val' = r.v /\ cnt' = cnt + 1 /\ k' = k + 1
             /\ IF r.ok THEN UNCHANGED <<pc, err>> ELSE Fail
  /\ UNCHANGED <<sid, impl, cur, acts>>

SetImplicitly(src) ==
  IF cnt = 0 /\ ~impl /\ src # <<>>
  THEN impl' = TRUE /\ val' = SetOne(sc, Start(sc, val), src[1]).v  \* an error is suppressed
  ELSE UNCHANGED <<impl, val>>

\* the option's own sources; a file is required to exist before the environment is considered
Own ==
  /\ \/ pc = "own" /\ pc' = "exist" /\ SetImplicitly(sc.uimp)
     \/ pc = "own2" /\ pc' = "imply" /\ SetImplicitly(OwnSource(sc))
  /\ UNCHANGED <<sid, k, cnt, cur, acts, err>>

\* required files
Missing(s, v) ==
  CASE s.kind = "fset" -> \E i \in 1..Len(v) : ~Exists(s, v[i][1])
    [] OTHER -> v[1][1] # "" /\ ~Exists(s, v[1][1])
Exist ==
  /\ pc = "exist"
  /\ IF Opt(sc, "MustExist") /\ Missing(sc, val) THEN Fail ELSE pc' = "own2" /\ UNCHANGED err
  /\ UNCHANGED <<sid, k, val, cnt, impl, cur, acts>>

\* implied by the other option
Imply ==
  /\ pc = "imply" /\ pc' = "act" /\ k' = 1 /\ SetImplicitly(Implied(sc))
  /\ UNCHANGED <<sid, cnt, cur, acts, err>>

All == [val |-> Show(sc, val), raw |-> IF sc.tgt = "arg" THEN RawOcc(sc) ELSE RawAll(sc), occ |-> RawOcc(sc), cnt |-> cnt, seen |-> cnt > 0]
Finish == pc' = "end" /\ UNCHANGED err
RunAction(c) ==
  /\ acts' = Append(acts, [cur |-> c, all |-> All])
  /\ IF sc.fail = Len(acts) + 1 THEN Fail
     ELSE UNCHANGED err /\ pc' = (IF Opt(sc, "EachOccurrence") THEN "act" ELSE "end")
Action ==
  /\ pc = "act"
  /\ IF cnt = 0 /\ ~(impl /\ Opt(sc, "ImpliedAction")) THEN Finish /\ UNCHANGED <<acts, cur, k>>
     ELSE IF ~Opt(sc, "EachOccurrence")
     THEN RunAction(All) /\ UNCHANGED <<cur, k>>
     ELSE IF k > Len(Groups(sc)) THEN Finish /\ UNCHANGED <<acts, cur, k>>
     ELSE LET g == Groups(sc)[k]
              from == IF k = 1 \/ ~Opt(sc, "Merge") THEN Zero(sc.kind) ELSE cur
              v == UseOf(sc, from, g).v
          IN /\ cur' = v /\ k' = k + 1
             /\ RunAction([val |-> Show(sc, v), raw |-> <<Label(sc)>> \o g, occ |-> g, cnt |-> cnt, seen |-> TRUE])
  /\ UNCHANGED <<sid, val, cnt, impl>>

Step == Use \/ Own \/ Exist \/ Imply \/ Action

Fin == [val |-> Show(sc, val), ptr |-> Show(sc, val), raw |-> RawAll(sc), occ |-> RawOcc(sc), cnt |-> cnt,
        seen |-> cnt > 0, impl |-> impl]
Outcome == IF err = "ok" THEN [err |-> err, acts |-> acts, fin |-> Fin] ELSE [err |-> err, acts |-> acts]

---------------------------------------------------------------------------
(* properties of every run, checked by TLC on the enumerated scenarios *)
RECURSIVE Combined(_, _)
Combined(s, n) ==   \* all uses up to the n-th combined
  IF n = 0 THEN Initial(s)
  ELSE UseOf(s, IF n = 1 THEN Start(s, Initial(s)) ELSE Again(s, Combined(s, n - 1)), Groups(s)[n]).v
Single(s) == s.kind \in {"str", "none", "nv", "nvf"} \cup Tabled
SourceOf(s) == IF OwnSource(s) # <<>> THEN OwnSource(s) ELSE Implied(s)
Precedence ==  \* C08
  (pc = "end" /\ err = "ok") =>
    IF Groups(sc) # <<>> THEN val = Combined(sc, Len(Groups(sc))) /\ cnt = Len(Groups(sc)) /\ ~impl
    ELSE IF SourceOf(sc) # <<>> THEN impl /\ cnt = 0 /\ val = SetOne(sc, Start(sc, Initial(sc)), SourceOf(sc)[1]).v
    ELSE ~impl /\ cnt = 0 /\ val = Initial(sc)
LastWins ==    \* C09: a single valued flag has the value of its last use alone
  (pc = "end" /\ err = "ok" /\ Groups(sc) # <<>> /\ Single(sc) /\ sc.tgt = "flag" /\ ~Opt(sc, "Merge")) =>
    val = UseOf(sc, Zero(sc.kind), Groups(sc)[Len(Groups(sc))]).v
Kept ==        \* C09: merging keeps the initial items in front
  (pc = "end" /\ err = "ok" /\ Opt(sc, "Merge") /\ sc.kind \in {"list", "nvs", "cust", "fset"}) =>
    /\ Len(val) >= Len(Initial(sc)) /\ SubSeq(val, 1, Len(Initial(sc))) = Initial(sc)
PerUse ==      \* C26: one call per use, in order, each with its own text
  (pc = "end" /\ Opt(sc, "EachOccurrence")) =>
    /\ Len(acts) <= Len(Groups(sc))
    /\ \A i \in 1..Len(acts) : acts[i].cur.occ = Groups(sc)[i] /\ acts[i].all.val = Show(sc, val)
    /\ err = "ok" => Len(acts) = Len(Groups(sc))
    /\ ~Opt(sc, "Merge") => \A i \in 1..Len(acts) : acts[i].cur.val = Show(sc, UseOf(sc, Zero(sc.kind), Groups(sc)[i]).v)
SafetyAtEnd == Precedence /\ LastWins /\ Kept /\ PerUse
=============================================================================
