-------------------------------- MODULE Str --------------------------------
(* String helpers (TLC treats strings as sequences for Len, SubSeq and \o). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
TakeN(s, n) == SubSeq(s, 1, n)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* position of the first occurrence of the one-character string c, or 0 *)
IndexOf(s, c) ==
  LET P == {i \in 1..Len(s) : Ch(s, i) = c}
  IN  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
Range(f) == {f[x] : x \in DOMAIN f}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
FirstIdx(seq, Op(_)) ==
  LET P == {i \in 1..Len(seq) : Op(seq[i])}
  IN  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
=============================================================================
