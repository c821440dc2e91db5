-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Wrapped text: every word of the text is there, in order and apart from  *)
(* the others; every line of the text starts a line; and lines are broken  *)
(* between words only where the next word reaches the width.               *)
(*                                                                         *)
(* Scenario: [lines, indent, width]                                        *)
(*   lines: the lines of the text, each [lead, words]; lead: how many      *)
(*   spaces it starts with; words: each [sp, w], the spaces before it (0   *)
(*   for the first) and its text.  "~" is an escape sequence.              *)
(* Observation: [out]: the lines written                                   *)
(* The specification says which texts are right, more than one may be, so  *)
(* it follows what was written and tells whether each step was allowed.    *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANTS Scen(_), Written(_)
VARIABLES sid, sc, pc, li, wi, row, line, used
vars == <<sid, sc, pc, li, wi, row, line, used>>
(* line: what remains of line `row` of those written; used: the width so far *)

Out == Written(sid)
Text == sc.lines[li]
Word == Text.words[wi]
Width(s) == Len(SelectSeq(Chars(s), LAMBDA c : c # "~"))
RECURSIVE Blank(_)
Blank(n) == IF n = 0 THEN "" ELSE " " \o Blank(n - 1)
Trim(s) == SelectSeq(Chars(s), LAMBDA c : c # " ")
Indent == IF sc.width = 0 THEN 0 ELSE sc.indent   \* no width: the text is left as it is
Same == UNCHANGED <<sid, sc>>

WrapInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ pc = "start" /\ li = 1 /\ wi = 1 /\ row = 1 /\ used = 0
  /\ line = IF Written(id) = <<>> THEN "" ELSE Written(id)[1]
Bad == pc' = "bad" /\ UNCHANGED <<li, wi, row, line, used>>
(* Starts a line of the text: the indent, other than on the first, and the text's own *)
Start ==
  /\ pc = "start" /\ Same
  /\ LET lead == Blank((IF li = 1 THEN 0 ELSE Indent) + Text.lead) IN
     IF Text.words = <<>> THEN pc' = "end" /\ UNCHANGED <<li, wi, row, line, used>>
     ELSE IF StartsWith(line, lead) THEN
       pc' = "word" /\ wi' = 1 /\ line' = Drop(line, Len(lead)) /\ used' = Len(lead) /\ UNCHANGED <<li, row>>
     ELSE Bad
Take(w) == line' = Drop(line, Len(w)) /\ used' = used + Width(w)
Next1 == IF wi = Len(Text.words) THEN pc' = "end" /\ UNCHANGED wi ELSE pc' = "word" /\ wi' = wi + 1
(* The word stays on the line, unless the line is full *)
Stays == StartsWith(line, Blank(Word.sp) \o Word.w)
Stay ==
  /\ pc = "word" /\ Stays /\ Same /\ UNCHANGED <<li, row>>
  /\ IF Word.sp > 0 /\ used + Word.sp >= sc.width /\ sc.width > 0 THEN pc' = "bad" /\ UNCHANGED <<wi, line, used>>
     ELSE Take(Blank(Word.sp) \o Word.w) /\ Next1
(* or starts another, when it would reach the width *)
Break ==
  /\ pc = "word" /\ ~Stays /\ Same /\ UNCHANGED li
  /\ IF /\ Trim(line) = <<>> /\ row < Len(Out) /\ wi > 1 /\ sc.width > 0
        /\ used + Word.sp + Width(Word.w) >= sc.width
        /\ StartsWith(Out[row + 1], Blank(Indent) \o Word.w)
     THEN /\ row' = row + 1 /\ line' = Drop(Out[row + 1], Indent + Len(Word.w))
          /\ used' = Indent + Width(Word.w) /\ Next1
     ELSE pc' = "bad" /\ UNCHANGED <<wi, row, line, used>>
End ==
  /\ pc = "end" /\ Same
  /\ IF Trim(line) # <<>> THEN Bad
     ELSE IF li < Len(sc.lines) /\ row < Len(Out) THEN
       pc' = "start" /\ li' = li + 1 /\ row' = row + 1 /\ line' = Out[row + 1] /\ used' = 0 /\ UNCHANGED wi
     ELSE pc' = (IF li = Len(sc.lines) /\ row = Len(Out) THEN "good" ELSE "bad") /\ UNCHANGED <<li, wi, row, line, used>>
Step == Start \/ Stay \/ Break \/ End
Done == pc \in {"good", "bad"}
Safety == row >= li /\ (pc = "good" => row >= Len(sc.lines))
=============================================================================
