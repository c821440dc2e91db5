-------------------------------- MODULE Fset --------------------------------
(***************************************************************************)
(* A file set: where its names come from, which files it visits, and what  *)
(* each visit can read.                                                    *)
(*                                                                         *)
(* Scenario: kind of file system (plain: only opens; stat: has Stat; map;  *)
(* dir: a directory; sys: a directory and standard input; app: that of the *)
(* app, with the absolute names of a directory), its tree of [p, k, t]     *)
(* (components of the path, f or d, text), the faults <<op, components>>,  *)
(* src of the names (field, args, data: SetData, ref: file references to   *)
(* lists), lines [lead, t, end] of the lists, rec (no field flag), must    *)
(* (MustExist), mode (do all) and stop, the visit that ends it.            *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, stack, visits, input, res
vars == <<sid, sc, pc, todo, stack, visits, input, res>>
(* todo: names not yet begun; stack: what is left of the current name, as   *)
(* <<path, what, error>> with what = see, list or fail; input: unread standard input *)

Std(p) == p = <<"-">> /\ (sc.kind = "sys" \/ sc.kind = "app")
Recursive == sc.rec # "no"

(* The names in a list: a name on each line, but for blanks and comments *)
RECURSIVE SplitPath(_, _)
SplitPath(s, cur) ==
  IF s = "" THEN <<cur>>
  ELSE IF Ch(s, 1) = "/" THEN <<cur>> \o SplitPath(Drop(s, 1), "")
  ELSE SplitPath(Drop(s, 1), cur \o Ch(s, 1))
NameOf(t) == IF t = "." THEN <<>> ELSE SplitPath(t, "")
Meant(l) == l.t # "" /\ ~StartsWith(l.t, "#") /\ ~StartsWith(l.t, ";")
Listed(ls) == LET m == SelectSeq(ls, Meant) IN [i \in 1..Len(m) |-> NameOf(m[i].t)]
Files(s) == IF s.src = "data" \/ s.src = "ref" THEN FlattenSeq([i \in 1..Len(s.lines) |-> Listed(s.lines[i])]) ELSE s.names

Spaces(n) == SubSeq("          ", 1, n)
RECURSIVE TextOf(_)
TextOf(ls) == IF ls = <<>> THEN "" ELSE Spaces(Head(ls).lead) \o Head(ls).t \o Spaces(Head(ls).end) \o (IF sc.nl = "crlf" THEN "\r\n" ELSE "\n") \o TextOf(Tail(ls))
ListText(i) == TextOf(sc.lines[i])
Nodes(p) == IF sc.src = "ref" /\ Len(p) = 1 /\ (\E i \in 1..Len(sc.lines) : p[1] = "list" \o ToString(i)) THEN << [p |-> p, k |-> "f", t |-> ListText(IF p[1] = "list1" THEN 1 ELSE 2)] >>
            ELSE SelectSeq(sc.tree, LAMBDA n : n.p = p)
Exist(p) == p = <<>> \/ Nodes(p) # <<>>
IsDir(p) == p = <<>> \/ (Nodes(p) # <<>> /\ Nodes(p)[1].k = "d")
Fault(op, p) == \E i \in 1..Len(sc.faults) : sc.faults[i] = <<op>> \o p
StatOf(p) == IF Std(p) THEN "ok" ELSE IF ~Exist(p) THEN "missing"
             ELSE IF Fault("stat", p) \/ (sc.kind = "plain" /\ Fault("open", p)) THEN "fault" ELSE "ok"
OpenOf(p) == IF Std(p) THEN "ok" ELSE IF ~Exist(p) THEN "missing" ELSE IF Fault("open", p) THEN "fault" ELSE "ok"
ListOf(p) == IF OpenOf(p) # "ok" THEN OpenOf(p) ELSE IF Fault("readdir", p) THEN "fault" ELSE "ok"
(* the entries of a directory in order *)
Order == <<"a", "b", "c", "d", "list1", "list2">>
Entries(p) == LET e == SelectSeq(Order, LAMBDA n : Exist(Append(p, n))) IN [i \in 1..Len(e) |-> Append(p, e[i])]
(* what a visit finds when it looks at the file *)
Look(p) == IF Std(p) THEN "= " \o input
           ELSE IF StatOf(p) # "ok" THEN "stat " \o StatOf(p)
           ELSE IF IsDir(p) THEN "dir"
           ELSE IF OpenOf(p) # "ok" THEN "open " \o OpenOf(p)
           ELSE "= " \o Nodes(p)[1].t

(* A name below a file is none of: existing, missing *)
Odd(p) == \E k \in 1..(Len(p) - 1) : Exist(SubSeq(p, 1, k)) /\ ~IsDir(SubSeq(p, 1, k))
AllExist == \A i \in 1..Len(Files(sc)) : StatOf(Files(sc)[i]) # "missing"

FsetInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ pc = "start" /\ todo = Files(Scen(id)) /\ stack = <<>> /\ visits = <<>>
  /\ input = Scen(id).stdin /\ res = "ok"

Begin ==
  /\ pc = "start" /\ UNCHANGED <<sid, sc, todo, stack, visits, input>>
  /\ IF \E i \in 1..Len(todo) : Odd(todo[i]) THEN pc' = "unspecified" /\ UNCHANGED res
     ELSE IF sc.must /\ ~AllExist THEN pc' = "done" /\ res' = "not exist"
     ELSE pc' = "walk" /\ UNCHANGED res

(* A visit of p, told of err, which may be the last *)
Visit(p, err) ==
  /\ visits' = Append(visits, <<p, err, Look(p)>>)
  /\ input' = IF Std(p) THEN "" ELSE input

NextName ==
  /\ pc = "walk" /\ stack = <<>> /\ UNCHANGED <<sid, sc, visits, input, res>>
  /\ IF todo = <<>> THEN pc' = "done" /\ UNCHANGED <<todo, stack>>
     ELSE /\ todo' = Tail(todo) /\ UNCHANGED pc
          /\ stack' = << <<Head(todo), "see", IF Recursive THEN StatOf(Head(todo)) ELSE "ok">> >>

(* A file is visited before what is in it; a directory that cannot be listed is visited again with the error *)
See ==
  /\ pc = "walk" /\ stack # <<>> /\ Head(stack)[2] # "list" /\ UNCHANGED <<sid, sc, todo>>
  /\ LET p == Head(stack)[1]
         err == Head(stack)[3]
     IN /\ Visit(p, err)
        /\ IF Len(visits) + 1 = sc.stop
           THEN pc' = "done" /\ res' = (IF sc.mode = "do" THEN "stop" ELSE "ok") /\ stack' = <<>>
           ELSE /\ UNCHANGED <<pc, res>>
                /\ stack' = (IF Recursive /\ Head(stack)[2] = "see" /\ err = "ok" /\ ~Std(p) /\ IsDir(p) THEN << <<p, "list", "ok">> >> ELSE <<>>)
                            \o Tail(stack)
List ==
  /\ pc = "walk" /\ stack # <<>> /\ Head(stack)[2] = "list" /\ UNCHANGED <<sid, sc, pc, todo, visits, input, res>>
  /\ LET p == Head(stack)[1]
         e == Entries(p)
     IN stack' = (IF ListOf(p) = "ok" THEN [i \in 1..Len(e) |-> <<e[i], "see", "ok">>] ELSE << <<p, "fail", ListOf(p)>> >>) \o Tail(stack)

Done == pc \in {"done", "unspecified"}
Step == Begin \/ NextName \/ See \/ List

Outcome == IF res = "not exist" THEN [res |-> res, visits |-> <<>>, exists |-> FALSE, files |-> <<>>]
           ELSE [res |-> res, visits |-> visits, exists |-> AllExist, files |-> Files(sc)]
Agrees(obs) ==
  pc = "unspecified" \/
  /\ "res" \in DOMAIN obs /\ obs.res = Outcome.res
  /\ obs.visits = Outcome.visits /\ obs.exists = Outcome.exists /\ obs.files = Outcome.files

(* Over the visits made so far *)
Paths == [i \in 1..Len(visits) |-> visits[i][1]]
Inside(p, q) == Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
Safety ==
  /\ Len(visits) <= Max2(sc.stop, 0) \/ sc.stop = 0
  \* without recursion: each name once in order, whatever it is
  /\ ~Recursive /\ pc \notin {"start", "unspecified"} => Paths = SubSeq(Files(sc), 1, Len(visits))
  \* each visited file is named or is inside of a directory that is
  /\ \A i \in 1..Len(visits) : \E j \in 1..Len(Files(sc)) : Paths[i] = Files(sc)[j] \/ (Recursive /\ Inside(Paths[i], Files(sc)[j]))
  \* nothing that exists below a named directory is left out unless a fault is reported
  /\ pc = "done" /\ Recursive /\ res = "ok" /\ sc.stop = 0 =>
       \A j \in 1..Len(Files(sc)) : \A n \in 1..Len(sc.tree) :
          LET p == sc.tree[n].p IN
          p = Files(sc)[j] \/ Inside(p, Files(sc)[j]) =>
            \/ p \in Range(Paths)
            \/ \E i \in 1..Len(visits) : visits[i][2] # "ok" /\ (Inside(p, Paths[i]) \/ p = Paths[i])
  \* a missing name is told
  /\ pc = "done" /\ Recursive /\ res = "ok" /\ sc.stop = 0 =>
       \A j \in 1..Len(Files(sc)) : StatOf(Files(sc)[j]) # "ok" => \E i \in 1..Len(visits) : visits[i][1] = Files(sc)[j] /\ visits[i][2] # "ok"
=============================================================================
