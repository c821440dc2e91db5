------------------------------ MODULE TmplGen ------------------------------
(* Small sequences of generators, every one of them, enumerated from Tmpl.   *)
EXTENDS Tmpl, Json
CONSTANT Wide

GenScen(x) == x
L(s) == <<[t |-> "lit", s |-> s]>>
V(s) == <<[t |-> "var", s |-> s]>>
Step0(k) == [k |-> k, n |-> <<>>, n2 |-> <<>>, d |-> <<>>, c |-> <<>>, ops |-> <<>>, s |-> "", m |-> 384]
File(n, ops) == [Step0("file") EXCEPT !.n = n, !.ops = ops]
Dir(n, c) == [Step0("dir") EXCEPT !.n = n, !.c = c]
Box(k, c) == [Step0(k) EXCEPT !.c = c]
FsOp(w, n, n2) == [Step0("fs") EXCEPT !.n = n, !.n2 = n2, !.s = w]
Op(k, s, p, m) == [k |-> k, s |-> s, p |-> p, d |-> <<>>, m |-> m, form |-> 0]
Text(s) == Op("contents", s, <<>>, 0)
NV(n, v) == [n |-> n, v |-> v]
Data1(n, v) == [Step0("data") EXCEPT !.d = <<NV(n, v)>>]
Old(p, d) == [p |-> p, dir |-> FALSE, data |-> d, mode |-> 420]
OldDir(p) == [p |-> p, dir |-> TRUE, data |-> "", mode |-> 493]
Start(dry, wd, files, fails, steps) ==
  TmplInit([dry |-> dry, over |-> FALSE, place |-> IF dry THEN "flags" ELSE "action", wd |-> wd, files |-> files, fails |-> fails, steps |-> steps])

(* one file and what is done to it, in any order, in any place, whatever was there, whatever fails *)
Ops == {Text("x"), Text("package  p\n"), Op("touch", "", <<>>, 0), Op("mode", "", <<>>, 384), Op("gofmt", "", <<>>, 0),
        [Op("template", "", <<[t |-> "lit", s |-> "package  p\n"], [t |-> "var", s |-> "V"]>>, 0) EXCEPT !.d = <<NV("W", "y"), NV("V", "")>>],
        Op("fail", "boom0", <<>>, 0), Op("name", "", <<>>, 0)}
       \cup (IF Wide THEN {Text(""), Op("json", "x", <<>>, 0), Op("mode", "", <<>>, 493), Op("template", "", <<[t |-> "fail", s |-> ""]>>, 0), Op("badreader", "boom1", <<>>, 0)} ELSE {})
Faults == {<<>>, <<"create a/f">>, <<"write a/f">>, <<"close a/f">>, <<"mkdir a">>, <<"chmod a/f">>, <<"chtimes a/f">>}
One ==
  \E n \in 0..(IF Wide THEN 3 ELSE 2) : \E ops \in [1..n -> Ops], dry \in BOOLEAN, was \in {<<>>, <<Old("a/f", "x")>>, <<Old("a/f", "package p\n")>>, <<OldDir("a/f")>>, <<Old("a", "x")>>},
     fails \in Faults :
    /\ dry => fails = <<>>
    /\ Start(dry, "", was, fails, <<Dir(L("a"), <<File(L("f"), ops)>>), File(L("z"), <<Text("x")>>)>>)

(* sequences of steps in nested directories *)
Steps1 == {File(L("f"), <<Text("x")>>), File(L("f"), <<Text("y")>>), File(V("V"), <<Text("x")>>), File(L("g/f"), <<Op("touch", "", <<>>, 0)>>),
           Data1("V", "v"), Data1("V", "w/v"), [Step0("fail") EXCEPT !.s = "boom"], FsOp("create", L("h"), L("made")), FsOp("exists", L("f"), <<>>),
           FsOp("mkdir", L("k"), <<>>), FsOp("removeall", L("g"), <<>>), FsOp("where", <<>>, <<>>)}
          \cup (IF Wide THEN {File(L("../f"), <<Text("x")>>), File(L("/w/f"), <<Text("x")>>), FsOp("rename", L("f"), L("q/f")), FsOp("remove", L("f"), <<>>), FsOp("read", L("f"), <<>>)} ELSE {})
Boxes == {"dir", "try", "seq", "root"}
B(k, c) == IF k = "dir" THEN Dir(L("a"), c) ELSE Box(k, c)
Nest ==
  \E a \in Steps1, b \in Steps1,
     c \in (IF Wide THEN Steps1 ELSE {File(L("f"), <<Text("x")>>), File(V("V"), <<Text("x")>>), FsOp("where", <<>>, <<>>), FsOp("exists", L("f"), <<>>)}), k1 \in Boxes, k2 \in {"dir", "try"}, dry \in BOOLEAN, wd \in {"", "out"} :
    \/ Start(dry, wd, <<>>, <<>>, <<B(k1, <<a, B(k2, <<b>>), c>>), File(L("z"), <<Text("x")>>)>>)
    \/ /\ Wide \/ (k1 # "root" /\ wd = "out")
       /\ Start(dry, wd, <<Old("out/f", "x"), Old("out/a/f", "y")>>, <<>>, <<B(k1, <<B(k2, <<a, b>>)>>), c>>)
GenInit == One \/ Nest
Emit == /\ Done /\ IF pc = "done" THEN PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>) ELSE TRUE
        /\ pc' = "judged" /\ UNCHANGED <<sid, sc, work, dirs, env, fs, pre, cur, log, res>>
GenNext == Step \/ Emit
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
