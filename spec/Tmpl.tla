-------------------------------- MODULE Tmpl --------------------------------
(***************************************************************************)
(* Template generators.  A sequence of generators is carried out one step  *)
(* at a time against a file system: directories enclose what is generated  *)
(* within them, files are made by operations applied in order, variables   *)
(* are set and used by names and contents.  A step that fails ends the     *)
(* sequence (up to a generator that handles it).  In a dry run the file    *)
(* system stays as it is, and `pre` is what would have been written.       *)
(*                                                                         *)
(* Scenario: [dry, over, place, wd, files, fails, steps]                   *)
(* fails: operations of the file system that fail, as "op path"            *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, work, dirs, env, fs, pre, cur, log, res
vars == <<sid, sc, pc, work, dirs, env, fs, pre, cur, log, res>>

------------------------------------------------------------------------------
(* Paths *)
RECURSIVE Split(_), CleanC(_, _, _)
Split(s) ==   \* the components
  LET i == IndexOf(s, "/") IN IF i = 0 THEN <<s>> ELSE <<TakeN(s, i - 1)>> \o Split(Drop(s, i))
Abs(s) == StartsWith(s, "/")
CleanC(cs, acc, abs) ==
  IF cs = <<>> THEN acc
  ELSE LET c == Head(cs) IN
       IF c \in {"", "."} THEN CleanC(Tail(cs), acc, abs)
       ELSE IF c # ".." THEN CleanC(Tail(cs), Append(acc, c), abs)
       ELSE IF acc # <<>> /\ (IF acc = <<>> THEN FALSE ELSE acc[Len(acc)] # "..") THEN CleanC(Tail(cs), SubSeq(acc, 1, Len(acc) - 1), abs)
       ELSE CleanC(Tail(cs), IF abs THEN acc ELSE Append(acc, ".."), abs)
OfComps(cs, abs) == IF cs = <<>> THEN IF abs THEN "/" ELSE "." ELSE (IF abs THEN "/" ELSE "") \o JoinStr(cs, "/")
Clean(s) == OfComps(CleanC(Split(s), <<>>, Abs(s)), Abs(s))
Comps(p) == IF p \in {".", "/"} THEN <<>> ELSE Split(IF Abs(p) THEN Drop(p, 1) ELSE p)
Parent(p) == LET c == Comps(p) IN OfComps(IF c = <<>> THEN c ELSE SubSeq(c, 1, Len(c) - 1), Abs(p))
Above(p) ==   \* enclosing directories, outermost first
  LET c == Comps(p) IN [i \in 1..Len(c) |-> OfComps(SubSeq(c, 1, i - 1), Abs(p))]
Upto(p) == Above(p) \o <<p>>
WorkDir == Clean(JoinStr(SelectSeq(dirs, LAMBDA d : d # ""), "/"))

(* Texts with variables *)
Source(ps) ==
  FlattenSeq([i \in 1..Len(ps) |->
    <<CASE ps[i].t = "lit" -> ps[i].s
        [] ps[i].t = "var" -> "{{ ." \o ps[i].s \o " }}"
        [] ps[i].t = "bad" -> "{{ " \o ps[i].s
        [] OTHER -> "{{ index .X 99 }}">>])
Src(ps) == JoinStr(Source(ps), "")
Good(ps) == \A i \in 1..Len(ps) : ps[i].t \in {"lit", "var"}
Lookup(e, n) == IF n \in DOMAIN e THEN e[n] ELSE "<no value>"
Eval(ps, e) == JoinStr([i \in 1..Len(ps) |-> IF ps[i].t = "lit" THEN ps[i].s ELSE Lookup(e, ps[i].s)], "")
PathOf(ps) ==
  LET n == IF Good(ps) THEN Eval(ps, env) ELSE Src(ps)
  IN  IF Abs(n) THEN Clean(n) ELSE Clean(WorkDir \o "/" \o n)

------------------------------------------------------------------------------
(* The file system.  Operations give [fs, res]; res is "ok", the operation  *)
(* that was made to fail, or "err".                                         *)
DirNode(fresh) == [dir |-> TRUE, data |-> "", mode |-> 493, fresh |-> fresh]
Fails(op, p) == \E i \in 1..Len(sc.fails) : sc.fails[i] = op \o " " \o p
Has(f, p) == p \in DOMAIN f
IsDir(f, p) == Has(f, p) /\ (IF Has(f, p) THEN f[p].dir ELSE FALSE)
IsFile(f, p) == Has(f, p) /\ (IF Has(f, p) THEN ~f[p].dir ELSE FALSE)
UnderFile(f, p) == \E i \in 1..Len(Above(p)) : IsFile(f, Above(p)[i])
Ret(f, r) == [fs |-> f, res |-> r]
RECURSIVE MkSeq(_, _)
MkSeq(f, ps) ==
  IF ps = <<>> THEN Ret(f, "ok")
  ELSE IF IsDir(f, Head(ps)) THEN MkSeq(f, Tail(ps))
  ELSE IF Has(f, Head(ps)) THEN Ret(f, "err")
  ELSE IF Fails("mkdir", Head(ps)) THEN Ret(f, "mkdir " \o Head(ps))
  ELSE MkSeq((Head(ps) :> DirNode(TRUE)) @@ f, Tail(ps))
MkdirAll(f, p) == MkSeq(f, Upto(p))
(* the directory that a file is in is made if need be *)
Ensure(f, p) == IF UnderFile(f, p) THEN Ret(f, "ok") ELSE MkdirAll(f, Parent(p))
Write(f, p, data) ==
  IF Fails("create", p) THEN Ret(f, "create " \o p)
  ELSE IF UnderFile(f, p) \/ IsDir(f, p) \/ ~Has(f, Parent(p)) THEN Ret(f, "err")
  ELSE LET n == IF Has(f, p) THEN f[p] ELSE [dir |-> FALSE, data |-> "", mode |-> 420, fresh |-> TRUE]
           wr == (p :> [n EXCEPT !.data = data, !.fresh = TRUE]) @@ f
       IN  IF data # "" /\ Fails("write", p) THEN Ret((p :> [n EXCEPT !.data = "", !.fresh = TRUE]) @@ f, "write " \o p)
           ELSE IF Fails("close", p) THEN Ret(wr, "close " \o p) ELSE Ret(wr, "ok")
Chmod(f, p, m) ==
  IF Fails("chmod", p) THEN Ret(f, "chmod " \o p)
  ELSE IF ~Has(f, p) THEN Ret(f, "err") ELSE Ret([f EXCEPT ![p].mode = m], "ok")
Chtimes(f, p) ==
  IF Fails("chtimes", p) THEN Ret(f, "chtimes " \o p)
  ELSE IF ~Has(f, p) THEN Ret(f, "err") ELSE Ret([f EXCEPT ![p].fresh = TRUE], "ok")
Below(f, p) == {q \in DOMAIN f : \E i \in 1..Len(Above(q)) : Above(q)[i] = p}
Without(f, ps) == [q \in DOMAIN f \ ps |-> f[q]]
Then(r, Op(_)) == IF r.res = "ok" THEN Op(r.fs) ELSE r

RECURSIVE AddAll(_, _)
AddAll(f, ns) ==
  IF ns = <<>> THEN f
  ELSE LET n == Head(ns)
           up == Above(n.p)
           g == [d \in Range(up) \ DOMAIN f |-> DirNode(FALSE)] @@ f
       IN  AddAll((n.p :> [dir |-> n.dir, data |-> n.data, mode |-> n.mode, fresh |-> FALSE]) @@ g, Tail(ns))
Base == [d \in {".", "/"} |-> DirNode(FALSE)]

TmplInit(i) ==
  /\ sid = i /\ sc = Scen(i) /\ pc = "run"
  /\ work = sc.steps /\ dirs = <<IF sc.wd = "" THEN "." ELSE sc.wd>>
  /\ env = [x \in {} |-> ""] /\ fs = AddAll(Base, sc.files) /\ pre = [x \in {} |-> ""]
  /\ cur = [p |-> "", was |-> "", new |-> FALSE] /\ log = <<>> /\ res = "ok"

------------------------------------------------------------------------------
Say(w, p, d) == log' = Append(log, [w |-> w, p |-> p, dry |-> d])
Fixed == UNCHANGED <<sid, sc>>
RECURSIVE Unwind(_, _)   \* what is left after a failure, and the directories
Unwind(w, d) ==
  IF w = <<>> THEN [work |-> w, dirs |-> d]
  ELSE IF Head(w).k = "endtry" THEN [work |-> Tail(w), dirs |-> d]
  ELSE IF Head(w).k = "pop" THEN Unwind(Tail(w), SubSeq(d, 1, Len(d) - 1))
  ELSE Unwind(Tail(w), d)
Caught == \E i \in 1..Len(work) : work[i].k = "endtry"
Fail(e) ==
  /\ work' = Unwind(Tail(work), dirs).work /\ dirs' = Unwind(Tail(work), dirs).dirs
  /\ IF Caught THEN UNCHANGED <<res, pc>> ELSE res' = e /\ pc' = "done"
Continue == work' = Tail(work) /\ UNCHANGED <<dirs, res, pc>>
(* the outcome of an operation on the file system *)
Apply(r) == fs' = r.fs /\ (IF r.res = "ok" THEN Continue ELSE Fail(r.res))
Unspecified == pc' = "unspecified" /\ UNCHANGED <<work, dirs, env, fs, pre, cur, log, res>>
Into(seq) == work' = seq \o Tail(work) /\ UNCHANGED <<res, pc>>
RECURSIVE SetAll(_, _)
SetAll(e, nv) == IF nv = <<>> THEN e ELSE SetAll((Head(nv).n :> Head(nv).v) @@ e, Tail(nv))

(* What file p has in it, as far as this run is concerned *)
Known(p) == p \in DOMAIN pre \/ IsFile(fs, p)
Data(p) == IF p \in DOMAIN pre THEN pre[p] ELSE IF IsFile(fs, p) THEN fs[p].data ELSE ""
Put(p, data) ==
  IF sc.dry THEN pre' = (p :> data) @@ pre /\ Continue /\ UNCHANGED fs
  ELSE UNCHANGED pre /\ Apply(Write(fs, p, data))

Formatted == ("package  p\n" :> "package p\n") @@ ("package p\n" :> "package p\n") @@ ("" :> "") @@ ("x" :> "x") @@ ("hello" :> "hello")
             @@ ("b\nc" :> "b\nc")
Unformattable == {"}{"}

FileOp(o) ==
  LET p == cur.p IN
  /\ UNCHANGED cur
  /\ CASE o.k = "contents" -> Put(p, o.s) /\ UNCHANGED <<env, log>>
       [] o.k = "json" -> Put(p, "{\n    \"a\": \"" \o o.s \o "\"\n}") /\ UNCHANGED <<env, log>>
       [] o.k = "template" ->
            LET e == SetAll(env, o.d) IN
            /\ env' = e /\ UNCHANGED log
            /\ IF Good(o.p) THEN Put(p, Eval(o.p, e)) ELSE Fail("err") /\ UNCHANGED <<fs, pre>>
       [] o.k = "touch" ->
            /\ UNCHANGED <<env, log>>
            /\ IF ~sc.dry /\ (Has(fs, p) \/ UnderFile(fs, p)) THEN Apply(Chtimes(fs, p)) /\ UNCHANGED pre
               ELSE IF sc.dry /\ (Has(fs, p) \/ Known(p)) THEN Continue /\ UNCHANGED <<fs, pre>>
               ELSE Put(p, "")
       [] o.k = "mode" ->
            /\ UNCHANGED <<env, log, pre>>
            /\ IF sc.dry THEN Continue /\ UNCHANGED fs ELSE Apply(Chmod(fs, p, o.m))
       [] o.k = "gofmt" ->
            /\ UNCHANGED env
            /\ IF ~Known(p) \/ Data(p) \in Unformattable THEN Fail("err") /\ UNCHANGED <<fs, pre, log>>
               ELSE IF Data(p) \in DOMAIN Formatted THEN Put(p, Formatted[Data(p)]) /\ UNCHANGED log
               ELSE pc' = "unspecified" /\ UNCHANGED <<work, dirs, fs, pre, log, res>>
       [] o.k \in {"fail", "badreader"} -> Fail(o.s) /\ UNCHANGED <<env, fs, pre, log>>
       [] o.k = "name" -> Say("name", p, FALSE) /\ Continue /\ UNCHANGED <<env, fs, pre>>

Fs(s) ==   \* the file system as a generator sees it: names are below the directory that encloses it
  LET p == PathOf(s.n)
      q == PathOf(s.n2)
      asks == s.s \in {"exists", "read"}
  IN
  IF s.s = "where" THEN Say("where", WorkDir, FALSE) /\ Continue /\ UNCHANGED <<fs, env, pre, cur>>
  ELSE IF sc.dry /\ ~asks THEN Continue /\ UNCHANGED <<fs, env, pre, cur, log>>
  ELSE IF \/ asks /\ (UnderFile(fs, p) \/ p \in DOMAIN pre)
          \/ s.s \in {"chmod", "rename"} /\ ~Has(fs, p)
          \/ s.s = "rename" /\ UnderFile(fs, q)
       THEN Unspecified
  ELSE
  /\ UNCHANGED <<env, pre, cur>>
  /\ CASE s.s = "exists" -> Say("exists", IF Has(fs, p) THEN "true" ELSE "false", FALSE) /\ Continue /\ UNCHANGED fs
       [] s.s = "read" -> IF IsFile(fs, p) THEN Say("read", fs[p].data, FALSE) /\ Continue /\ UNCHANGED fs
                          ELSE Fail("err") /\ UNCHANGED <<fs, log>>
       [] s.s = "create" -> Apply(Then(Ensure(fs, p), LAMBDA f : Write(f, p, "made"))) /\ UNCHANGED log
       [] s.s = "mkdir" -> Apply(Then(Ensure(fs, p), LAMBDA f :
                             IF Has(f, p) \/ UnderFile(f, p) THEN Ret(f, IF ~Has(f, p) /\ Fails("mkdir", p) THEN "mkdir " \o p ELSE "err") ELSE MkSeq(f, <<p>>))) /\ UNCHANGED log
       [] s.s = "mkdirall" -> Apply(MkdirAll(fs, p)) /\ UNCHANGED log
       [] s.s = "remove" ->
            /\ UNCHANGED log
            /\ Apply(IF Fails("remove", p) THEN Ret(fs, "remove " \o p)
                     ELSE IF ~Has(fs, p) \/ Below(fs, p) # {} THEN Ret(fs, "err") ELSE Ret(Without(fs, {p}), "ok"))
       [] s.s = "removeall" ->
            /\ UNCHANGED log
            /\ Apply(IF Fails("remove", p) THEN Ret(fs, "remove " \o p) ELSE Ret(Without(fs, {p} \cup Below(fs, p)), "ok"))
       [] s.s = "chmod" -> Apply(Chmod(fs, p, s.m)) /\ UNCHANGED log
       [] s.s = "rename" ->
            /\ UNCHANGED log
            /\ Apply(Then(Ensure(fs, q), LAMBDA f :
                 IF Fails("rename", p) THEN Ret(f, "rename " \o p)
                 ELSE IF IsDir(f, p) \/ IsDir(f, q) THEN Ret(f, "err")
                 ELSE Ret((q :> f[p]) @@ Without(f, {p}), "ok")))

Step ==
  /\ pc = "run" /\ Fixed
  /\ IF work = <<>> THEN pc' = "done" /\ UNCHANGED <<work, dirs, env, fs, pre, cur, log, res>>
     ELSE LET s == Head(work) IN
     CASE s.k \in {"vars", "data"} -> env' = SetAll(env, s.d) /\ Continue /\ UNCHANGED <<fs, pre, cur, log>>
       [] s.k = "dir" -> dirs' = Append(dirs, Src(s.n)) /\ Into(s.c \o <<[k |-> "pop"]>>) /\ UNCHANGED <<env, fs, pre, cur, log>>
       [] s.k = "pop" -> dirs' = SubSeq(dirs, 1, Len(dirs) - 1) /\ Into(<<>>) /\ UNCHANGED <<env, fs, pre, cur, log>>
       [] s.k \in {"seq", "root"} -> Into(s.c) /\ UNCHANGED <<dirs, env, fs, pre, cur, log>>
       [] s.k = "try" -> Into(s.c \o <<[k |-> "endtry"]>>) /\ UNCHANGED <<dirs, env, fs, pre, cur, log>>
       [] s.k \in {"endtry", "nil"} -> Into(<<>>) /\ UNCHANGED <<dirs, env, fs, pre, cur, log>>
       [] s.k = "fail" -> Fail(s.s) /\ UNCHANGED <<env, fs, pre, cur, log>>
       [] s.k = "fs" -> Fs(s)
       [] s.k = "op" -> FileOp(s.o)
       [] s.k = "file" ->
            LET p == PathOf(s.n)
                ops == [i \in 1..Len(s.ops) |-> [k |-> "op", o |-> s.ops[i]]]
                r == Ensure(fs, p)
            IN
            IF sc.dry /\ (UnderFile(fs, p) \/ IsDir(fs, p)) /\ s.ops # <<>> THEN Unspecified
            ELSE IF \E i \in 1..Len(s.ops) : s.ops[i].k \in {"name", "fail"} /\ UnderFile(fs, p) THEN Unspecified
            ELSE
            /\ UNCHANGED <<env, pre>>
            /\ IF s.ops = <<>> THEN Say("identical", p, sc.dry) /\ Continue /\ UNCHANGED <<fs, cur>>
               ELSE
               /\ cur' = [p |-> p, was |-> Data(p), new |-> ~Known(p) /\ ~Has(fs, p)] /\ UNCHANGED log
               /\ IF sc.dry THEN Into(ops \o <<[k |-> "report"]>>) /\ UNCHANGED <<dirs, fs>>
                  ELSE /\ fs' = r.fs
                       /\ IF r.res = "ok" THEN Into(ops \o <<[k |-> "report"]>>) /\ UNCHANGED dirs ELSE Fail(r.res)
       [] s.k = "report" ->
            /\ Say(IF cur.new THEN "create" ELSE IF cur.was = Data(cur.p) THEN "identical" ELSE "overwrite", cur.p, sc.dry)
            /\ Into(<<>>) /\ UNCHANGED <<dirs, env, fs, pre, cur>>

Done == pc \in {"done", "unspecified"}
Outcome == [fs |-> fs, log |-> log, res |-> res, open |-> 0]
SameFs(f, g) == DOMAIN f = DOMAIN g /\ (IF DOMAIN f = DOMAIN g THEN \A p \in DOMAIN f : f[p] = g[p] ELSE FALSE)
Agrees(o) ==
  IF pc = "unspecified" THEN TRUE
  ELSE IF DOMAIN o # {"fs", "log", "res", "open"} THEN FALSE
  ELSE o.res = res /\ o.open = 0 /\ o.log = log /\ SameFs(o.fs, fs)

(* nothing changes in a dry run; every node is in a directory; directories nest properly *)
Safety ==
  /\ sc.dry => fs = AddAll(Base, sc.files)
  /\ \A p \in DOMAIN fs : p \in {".", "/"} \/ IsDir(fs, Parent(p))
  /\ Len(dirs) = 1 + Cardinality({i \in 1..Len(work) : work[i].k = "pop"})
  /\ ~sc.dry => DOMAIN pre = {}
=============================================================================
