-------------------------------- MODULE Fops --------------------------------
(***************************************************************************)
(* Operations on files, one after another: each File acts on the file of   *)
(* its name in its own file system and on nothing else; "-" is standard    *)
(* input and output where the file system stands for those of an app.      *)
(*                                                                         *)
(* Scenario: kind of file system (dir, sub, new: a directory; app, sys:    *)
(* with standard files; ro: only opens), its tree of [p, k, t], the text   *)
(* of standard input, and ops: [op, p, q, form, t].                        *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, nodes, input, out, results
vars == <<sid, sc, pc, todo, nodes, input, out, results>>
(* nodes: a function from paths to [k, t, mode, time]; results: for each    *)
(* operation done the results that it may have                            *)

Names == <<"-", "a", "b", "x", "y">>   \* in order
Up(p) == SubSeq(p, 1, Len(p) - 1)
Within(p, q) == Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
Ro == sc.kind = "ro"
Std(p) == p = <<"-">> /\ (sc.kind = "sys" \/ sc.kind = "app")
Kind(p) ==   \* of what p names
  IF p = <<>> THEN "dir"
  ELSE IF p \in DOMAIN nodes THEN (IF nodes[p].k = "d" THEN "dir" ELSE "file")
  ELSE IF ~Ro /\ \E n \in 1..(Len(p) - 1) : SubSeq(p, 1, n) \in DOMAIN nodes /\ nodes[SubSeq(p, 1, n)].k = "f" THEN "below"
  ELSE "missing"
Empty(p) == ~\E q \in DOMAIN nodes : Within(q, p)
File(t, mode, time) == [k |-> "f", t |-> t, mode |-> mode, time |-> time]
Dir(mode) == [k |-> "d", t |-> "", mode |-> mode, time |-> "?"]
Put(p, n) == [q \in DOMAIN nodes \cup {p} |-> IF q = p THEN n ELSE nodes[q]]
Without(S) == [q \in DOMAIN nodes \ S |-> nodes[q]]
Tree(p) == {q \in DOMAIN nodes : q = p \/ Within(q, p)}
(* without a file or a directory there, it depends on the directory around it *)
New(p) == IF Kind(p) = "below" THEN "err" ELSE IF Kind(Up(p)) = "dir" THEN "ok" ELSE "missing"
Now(t) == IF t = "" THEN "?" ELSE "new"
Over(old, t) == t \o (IF Len(t) >= Len(old) THEN "" ELSE Drop(old, Len(t)))

RECURSIVE Below(_)
Below(p) == LET e == SelectSeq(Names, LAMBDA n : Append(p, n) \in DOMAIN nodes) IN
            FlattenSeq([i \in 1..Len(e) |-> <<Append(p, e[i])>> \o Below(Append(p, e[i]))])
Inside(p) == SelectSeq(Below(p), LAMBDA q : Len(q) = Len(p) + 1)
Lasts(ps) == JoinStr([i \in 1..Len(ps) |-> ps[i][Len(ps[i])]], " ")

FopsInit(id) ==
  LET s == Scen(id) IN
  /\ sid = id /\ sc = s /\ pc = "run" /\ todo = s.ops /\ input = s.stdin /\ out = "" /\ results = <<>>
  /\ nodes = [p \in {s.tree[i].p : i \in 1..Len(s.tree)} |->
                LET n == s.tree[CHOOSE i \in 1..Len(s.tree) : s.tree[i].p = p]
                IN IF n.k = "d" THEN Dir("755") ELSE File(n.t, "644", "new")]

Writes == {"create", "append", "over", "excl", "rdwr", "rdwra"}
Changes == Writes \cup {"mkdir", "mkdirall", "remove", "removeall", "rename", "chmod", "chtimes"}

(* What operation o gives: [res, nodes] *)
R(res, ns) == [res |-> {res}, nodes |-> ns]
Same(res) == R(res, nodes)
Write(o, p) ==
  LET k == Kind(p)
      old == nodes[p]
  IN CASE k = "dir" -> Same("err")
       [] k = "file" ->
            (CASE o.op = "create" -> R("ok", Put(p, File(o.t, old.mode, Now(o.t))))
               [] o.op \in {"append", "rdwra"} -> R("ok", Put(p, File(old.t \o o.t, old.mode, IF o.t = "" THEN old.time ELSE "new")))
               [] o.op \in {"over", "rdwr"} -> R("ok", Put(p, File(Over(old.t, o.t), old.mode, IF o.t = "" THEN old.time ELSE "new")))
               [] o.op = "excl" -> Same("err"))
       [] OTHER ->
            (CASE o.op \notin {"create", "excl"} -> Same(IF k = "below" THEN "err" ELSE "missing")
               [] New(p) # "ok" -> Same(New(p))
               [] OTHER -> R("ok", Put(p, File(o.t, IF o.op = "excl" THEN "600" ELSE "644", "new"))))
Move(p, q) ==
  LET kp == Kind(p)
      kq == Kind(q)
  IN CASE kp \in {"missing", "below"} ->
            [res |-> IF kp = "missing" /\ kq # "below" THEN {"missing"} ELSE {"missing", "err"}, nodes |-> nodes]
       [] kq = "dir" \/ kq = "below" \/ (kp = "dir" /\ kq = "file") -> Same("err")
       [] p = q -> Same("ok")
       [] kq = "missing" /\ Kind(Up(q)) # "dir" -> Same("missing")
       [] Within(q, p) -> Same("err")
       [] OTHER ->
            LET moved == {q \o SubSeq(r, Len(p) + 1, Len(r)) : r \in Tree(p)}
                keep == (DOMAIN nodes \ Tree(p)) \ {q}
            IN R("ok", [r \in keep \cup moved |-> IF r \in moved THEN nodes[p \o SubSeq(r, Len(q) + 1, Len(r))] ELSE nodes[r]])
Ask(o, p) ==
  LET k == Kind(p)
      gone == IF k = "below" THEN "err" ELSE "missing"
      n == nodes[p]
      there == k \in {"file", "dir"}
  IN CASE o.op \in {"read", "readf", "readctx"} -> {IF k = "file" THEN "= " \o n.t ELSE IF k = "dir" THEN "err" ELSE gone}
       [] o.op = "readdead" -> {IF there THEN "canceled" ELSE gone}
       [] o.op = "writedead" ->
            {IF ~there THEN gone ELSE IF k = "dir" \/ n.t = "" THEN " err canceled" ELSE Ch(n.t, 1) \o " ok canceled"}
       [] o.op = "stat" -> {IF ~there THEN gone ELSE IF k = "dir" THEN "d " \o n.mode ELSE "f " \o n.mode \o " " \o ToString(Len(n.t))}
       [] o.op = "mtime" -> IF ~there THEN {gone} ELSE IF n.time = "?" THEN {"new", "t1", "t2"} ELSE {n.time}
       [] o.op = "exists" -> IF k = "below" THEN {"true", "false"} ELSE {IF there THEN "true" ELSE "false"}
       [] o.op = "walk" -> {IF there THEN "ok " \o Lasts(<<p>> \o Below(p)) ELSE "ok !" \o gone}
       [] o.op = "walkskip" -> {IF there THEN "ok " \o Lasts(<<p>> \o Inside(p)) ELSE gone \o " "}
Make(o, p) ==
  LET k == Kind(p) IN
  CASE o.op = "mkdir" -> IF k \in {"file", "dir"} THEN Same("err") ELSE IF New(p) # "ok" THEN Same(New(p)) ELSE R("ok", Put(p, Dir(o.t)))
    [] o.op = "mkdirall" ->
         IF k = "dir" THEN Same("ok") ELSE IF k # "missing" THEN Same("err")
         ELSE LET more == {SubSeq(p, 1, n) : n \in 1..Len(p)} \ DOMAIN nodes
              IN R("ok", [q \in DOMAIN nodes \cup more |-> IF q \in more THEN Dir(o.t) ELSE nodes[q]])
    [] o.op = "remove" -> IF k = "missing" THEN Same("missing") ELSE IF k = "below" \/ ~Empty(p) THEN Same("err") ELSE R("ok", Without({p}))
    [] o.op = "removeall" -> IF k = "below" THEN [res |-> {"ok", "err"}, nodes |-> nodes] ELSE R("ok", Without(Tree(p)))
    [] o.op = "chmod" -> IF k \in {"missing", "below"} THEN Same(IF k = "below" THEN "err" ELSE k) ELSE R("ok", Put(p, [nodes[p] EXCEPT !.mode = o.t]))
    [] o.op = "chtimes" -> IF k \in {"missing", "below"} THEN Same(IF k = "below" THEN "err" ELSE k)
                           ELSE R("ok", IF k = "file" THEN Put(p, [nodes[p] EXCEPT !.time = o.t]) ELSE nodes)

Act ==
  /\ pc = "run" /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<sid, sc, pc>>
  /\ LET o == Head(todo)
         p == o.p
         std == Std(p)
         r == IF o.op \in Writes THEN Write(o, p) ELSE IF o.op = "rename" THEN Move(p, o.q)
              ELSE IF o.op \in Changes THEN Make(o, p) ELSE [res |-> Ask(o, p), nodes |-> nodes]
     IN IF std THEN
          /\ UNCHANGED nodes
          /\ out' = IF o.op \in Writes /\ o.op # "rdwr" THEN out \o o.t ELSE out
          /\ input' = IF o.op \in {"read", "readf", "readctx"} THEN "" ELSE input
          /\ results' = Append(results,
               {CASE o.op \in {"rdwr", "seek"} -> "unsupported" [] o.op \in Writes -> "ok" [] o.op \in {"read", "readf", "readctx"} -> "= " \o input
                  [] o.op = "stat" -> "std" [] o.op = "exists" -> "true" [] o.op = "walk" -> "ok -"})
        ELSE IF Ro /\ (o.op \in Changes \/ o.op \in {"readf", "readdead", "writedead"}) THEN
          /\ UNCHANGED <<nodes, input, out>>
          \* a file system that only opens files changes nothing; it may or may not be asked to open with a flag or a context
          /\ results' = Append(results, IF o.op \in Changes THEN {"unsupported"} ELSE {"*"})
        ELSE /\ nodes' = r.nodes /\ results' = Append(results, r.res) /\ UNCHANGED <<input, out>>
Finish == pc = "run" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<sid, sc, todo, nodes, input, out, results>>
Done == pc = "done"
Step == Act \/ Finish

Final == LET b == Below(<<>>) IN
         [i \in 1..Len(b) |-> <<JoinStr(b[i], "/"), (IF nodes[b[i]].k = "d" THEN "d " ELSE "f ") \o nodes[b[i]].mode, nodes[b[i]].t>>]
Sure == \A i \in 1..Len(results) : Cardinality(results[i]) = 1 /\ "*" \notin results[i]
(* the same outcome as the harness gives; only when it is sure *)
Outcome == [results |-> [i \in 1..Len(results) |-> CHOOSE x \in results[i] : TRUE], final |-> Final, out |-> out, around |-> 3, left |-> "outside outside"]
Agrees(obs) ==
  /\ "results" \in DOMAIN obs /\ Len(obs.results) = Len(results)
  /\ \A i \in 1..Len(results) : "*" \in results[i] \/ obs.results[i] \in results[i]
  /\ obs.final = Final /\ obs.out = out /\ obs.around = 3 /\ obs.left = "outside outside"

Safety ==
  \* a tree: each file is in a directory
  /\ \A p \in DOMAIN nodes : Kind(Up(p)) = "dir"
  \* the size of the tree changes only by operations for that
  /\ Ro => DOMAIN nodes = {sc.tree[i].p : i \in 1..Len(sc.tree)}
=============================================================================
