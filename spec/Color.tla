------------------------------- MODULE Color -------------------------------
(***************************************************************************)
(* Color and styles: whether each output has color, by detection, actions, *)
(* and the flags of the color extension; and what is written to it.        *)
(*                                                                         *)
(* Scenario: out, the app's standard output (mem: not a terminal; tty: a   *)
(* terminal; cli, cli+: a Writer without and with color), whether NO_COLOR *)
(* is set and TERM is dumb, the features of the extension (none: all), the *)
(* modes set in the app's Uses and in its Before, argv, whether a sub-     *)
(* command runs, and the ops done by the Action. In what is written, ~     *)
(* stands for the escape character and (Name) for an emoji.                *)
(***************************************************************************)
EXTENDS Str, TLC
CONSTANT Scen(_)
VARIABLES sid, sc, pc, todo, cap, text, bufs, results, res
vars == <<sid, sc, pc, todo, cap, text, bufs, results, res>>
(* cap, text: of out and err; bufs: sequence of [cap, text], the last is used *)

Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Feat(f) == sc.feats = <<>> \/ Has(sc.feats, f)
Flag == IF Feat("mode") THEN "mode" ELSE IF Feat("flag") THEN "bool" ELSE "none"
Detected == sc.out = "tty" /\ ~sc.nocolor /\ ~sc.dumb
Auto == [out |-> Detected, err |-> FALSE]
Both(b) == [out |-> b, err |-> b]
Mode(m) == CASE m \in {"on", "always"} -> Both(TRUE) [] m \in {"off", "never"} -> Both(FALSE) [] m \in {"auto", "detect"} -> Auto

(* The mode that the text of a use of a flag means *)
Value(v) == CASE v \in {"auto", "AUTO"} -> "auto" [] v \in {"always", "true", "on", "ON", ""} -> "on" [] v \in {"never", "false", "off", "Off"} -> "off" [] OTHER -> "invalid"
Use(t) ==
  IF t = "--no-color" THEN (IF Feat("no") THEN "off" ELSE "unknown")
  ELSE IF Flag = "none" THEN "unknown"
  \* without = the next token is the value unless it looks like a flag
  ELSE IF t = "--color" THEN (IF Flag = "mode" /\ sc.sub THEN "invalid" ELSE "on")
  ELSE IF Flag = "mode" THEN Value(Drop(t, 8))
  ELSE IF Drop(t, 8) = "true" THEN "on" ELSE IF Drop(t, 8) = "false" THEN "off" ELSE "unspecified"
Uses == [i \in 1..Len(sc.argv) |-> Use(sc.argv[i])]

ColorInit(id) ==
  /\ sid = id /\ sc = Scen(id) /\ pc = "start" /\ todo = Scen(id).uses /\ cap = Both(FALSE)
  /\ text = [out |-> "", err |-> ""] /\ bufs = <<>> /\ results = <<>> /\ res = "ok"

Start == /\ pc = "start" /\ cap' = [out |-> IF sc.out = "cli+" THEN TRUE ELSE Detected, err |-> FALSE]
         /\ pc' = "uses" /\ UNCHANGED <<sid, sc, todo, text, bufs, results, res>>
SetModes(from, next, then) ==
  /\ pc = from /\ UNCHANGED <<sid, sc, text, bufs, results, res>>
  /\ IF todo = <<>> THEN pc' = next /\ todo' = then /\ UNCHANGED cap
     ELSE todo' = Tail(todo) /\ cap' = Mode(Head(todo)) /\ UNCHANGED pc
Initialize == SetModes("uses", "parse", <<>>)
Parse ==
  /\ pc = "parse" /\ UNCHANGED <<sid, sc, cap, text, bufs, results>>
  /\ LET i == FirstIdx(Uses, LAMBDA u : u \in {"unknown", "unspecified", "invalid"}) IN
     IF \E k \in 1..Len(Uses) : Uses[k] = "unspecified" THEN pc' = "unspecified" /\ UNCHANGED <<todo, res>>
     ELSE IF \E k \in 1..Len(Uses) : Uses[k] = "unknown" THEN pc' = "done" /\ res' = "UnknownOption" /\ UNCHANGED todo
     ELSE IF i > 0 THEN pc' = "done" /\ res' = "other" /\ UNCHANGED todo
     ELSE pc' = "before" /\ todo' = sc.before /\ UNCHANGED res
(* a flag's action follows its last use *)
Before == SetModes("before", "flags", IF Uses = <<>> THEN <<>> ELSE <<Uses[Len(Uses)]>>)
Flags == SetModes("flags", "act", sc.ops)

Code(n) == "~[" \o ToString(n) \o "m"
Styles == [Bold |-> 1, Faint |-> 2, Italic |-> 3, Underline |-> 4, Blink |-> 5, Reverse |-> 7, Conceal |-> 8, Strikethrough |-> 9]
Colors == [Default |-> 39, Black |-> 30, Red |-> 31, Green |-> 32, Yellow |-> 33, Blue |-> 34, Magenta |-> 35, Cyan |-> 36, Gray |-> 37, DarkGray |-> 90,
           BrightRed |-> 91, BrightGreen |-> 92, BrightYellow |-> 93, BrightBlue |-> 94, BrightMagenta |-> 95, BrightCyan |-> 96, White |-> 97]
Emoji == {"Tada", "Fire", "Sparkles", "Exclamation", "Bulb", "X", "HeavyCheckMark", "Warning", "Play"}

(* What is written by an operation other than to render, when there is color and when there is not *)
Esc(on, n) == IF on THEN Code(n) ELSE ""
Written(o, on) ==
  CASE o.op \in {"write", "wstr"} -> o.t
    [] o.op = "style" -> Esc(on, Styles[o.name])
    [] o.op = "fg" -> Esc(on, Colors[o.name])
    [] o.op = "bg" -> Esc(on, Colors[o.name] + 10)
    [] o.op = "reset" -> Esc(on, 0)
    [] o.op = "styled" -> Esc(on, Styles[o.name]) \o o.t \o Esc(on, 0)
    [] o.op = "bold" -> Esc(on, 1) \o o.t \o Esc(on, 0)
    [] o.op = "underline" -> Esc(on, 4) \o o.t \o "7" \o Esc(on, 0)
    [] OTHER -> ""

(* Functions of templates: what comes before and after the text *)
RECURSIVE Fields(_, _)
Fields(s, cur) ==
  LET end == IF cur = "" THEN <<>> ELSE <<cur>> IN
  IF s = "" THEN end ELSE IF Ch(s, 1) = " " THEN end \o Fields(Drop(s, 1), "") ELSE Fields(Drop(s, 1), cur \o Ch(s, 1))
RECURSIVE Codes(_)
Codes(ns) == IF ns = <<>> THEN "" ELSE Code(Styles[Head(ns)]) \o Codes(Tail(ns))
(* [ok, on, off] *)
Fn(f) ==
  CASE f.f \in DOMAIN Styles -> [ok |-> TRUE, on |-> Code(Styles[f.f]), off |-> Code(0)]
    [] f.f \in DOMAIN Colors -> [ok |-> TRUE, on |-> Code(Colors[f.f]), off |-> Code(39)]
    [] f.f = "Color" -> IF f.arg \in DOMAIN Colors THEN [ok |-> TRUE, on |-> Code(Colors[f.arg]), off |-> Code(39)] ELSE [ok |-> FALSE]
    [] f.f = "Background" -> IF f.arg \in DOMAIN Colors THEN [ok |-> TRUE, on |-> Code(Colors[f.arg] + 10), off |-> Code(49)] ELSE [ok |-> FALSE]
    [] f.f = "Style" -> IF Range(Fields(f.arg, "")) \subseteq DOMAIN Styles
                        THEN [ok |-> TRUE, on |-> Codes(Fields(f.arg, "")), off |-> IF Fields(f.arg, "") = <<>> THEN "" ELSE Code(0)]
                        ELSE [ok |-> FALSE]
    [] f.f = "Reset" -> [ok |-> TRUE, on |-> Code(0), off |-> ""]
    [] f.f = "ResetColor" -> [ok |-> TRUE, on |-> Code(39), off |-> ""]
Around(f, t, on) == IF t = "" THEN "" ELSE IF on THEN Fn(f).on \o t \o Fn(f).off ELSE t
RECURSIVE Piped(_, _, _)
Piped(fs, t, on) == IF fs = <<>> THEN t ELSE Piped(Tail(fs), Around(Head(fs), t, on), on)
Bold == [f |-> "Bold", arg |-> ""]

(* Without the functions of the extension, Bold and the like leave text as it is *)
Plain == {"Bold", "Underline"}
Parses(p) == Feat("funcs") \/ p.k \in {"text", "first"} \/ (p.k \in {"pipe", "bare", "ints"} /\ \A i \in 1..Len(p.fns) : p.fns[i].f \in Plain)
Fails(p, on) ==
  CASE p.k \in {"bare", "ints"} -> ~Feat("funcs") \/ ~Fn(p.fns[1]).ok
    [] p.k = "pipe" -> Feat("funcs") /\ \E i \in 1..Len(p.fns) : ~Fn(p.fns[i]).ok
    [] p.k = "emoji" -> on /\ p.t # "" /\ p.t \notin Emoji
    [] OTHER -> FALSE
Rendered(p, on) ==
  CASE p.k = "text" -> p.t
    [] p.k = "emoji" -> IF on /\ p.t # "" THEN "(" \o p.t \o ")" ELSE ""
    [] p.k = "bare" -> IF on THEN Fn(p.fns[1]).on ELSE ""
    [] p.k = "ints" -> Around(p.fns[1], "4 2", on)
    [] p.k = "first" -> JoinStr([i \in 1..Len(p.items) |-> IF i = 1 THEN Around(Bold, p.items[1], on /\ Feat("funcs")) ELSE p.items[i]], ",")
    [] p.k = "pipe" -> Piped(p.fns, p.t, on /\ Feat("funcs"))
RECURSIVE Render(_, _)
Render(ps, on) == IF ps = <<>> THEN "" ELSE IF Fails(Head(ps), on) THEN "" ELSE Rendered(Head(ps), on) \o Render(Tail(ps), on)

Last == Len(bufs)
Act ==
  /\ pc = "act" /\ UNCHANGED <<sid, sc, res>>
  /\ IF todo = <<>> THEN pc' = "done" /\ UNCHANGED <<todo, cap, text, bufs, results>>
     ELSE
       LET o == Head(todo)
           have == IF o.w = "buf" /\ bufs = <<>> THEN << [cap |-> cap.out, text |-> ""] >> ELSE bufs
           n == Len(have)
           on == IF o.w = "buf" THEN have[n].cap ELSE cap[o.w]
           put(t) == IF o.w = "buf" THEN bufs' = [have EXCEPT ![n].text = @ \o t] /\ UNCHANGED text
                     ELSE bufs' = have /\ text' = [text EXCEPT ![o.w] = @ \o t]
           make(b) == IF o.w = "buf" THEN bufs' = [have EXCEPT ![n].cap = b] /\ UNCHANGED cap
                      ELSE bufs' = have /\ cap' = [cap EXCEPT ![o.w] = b]
       IN
       /\ todo' = Tail(todo) /\ UNCHANGED pc
       /\ CASE o.op \in {"newbuf", "newbuf0"} -> bufs' = Append(have, [cap |-> IF o.op = "newbuf" THEN cap.out ELSE FALSE, text |-> ""]) /\ UNCHANGED <<cap, text, results>>
            [] o.op = "cap" -> results' = Append(results, IF on THEN "true" ELSE "false") /\ bufs' = have /\ UNCHANGED <<cap, text>>
            [] o.op = "wset" -> make(o.t = "on") /\ UNCHANGED <<text, results>>
            [] o.op = "wauto" -> make(IF o.w = "out" THEN Detected ELSE FALSE) /\ UNCHANGED <<text, results>>
            [] o.op = "set" -> cap' = Both(o.t = "on") /\ bufs' = have /\ UNCHANGED <<text, results>>
            [] o.op = "auto" -> cap' = Auto /\ bufs' = have /\ UNCHANGED <<text, results>>
            [] o.op = "print" -> text' = [text EXCEPT !.out = @ \o o.t] /\ bufs' = have /\ UNCHANGED <<cap, results>>
            [] o.op = "render" ->
                 IF \E i \in 1..Len(o.pieces) : ~Parses(o.pieces[i])
                 THEN results' = Append(results, "parse") /\ bufs' = have /\ UNCHANGED <<cap, text>>
                 ELSE /\ text' = [text EXCEPT !.out = @ \o Render(o.pieces, cap.out)] /\ bufs' = have /\ UNCHANGED cap
                      /\ results' = Append(results, IF \E i \in 1..Len(o.pieces) : Fails(o.pieces[i], cap.out) THEN "error" ELSE "ok")
            [] OTHER -> put(Written(o, on)) /\ UNCHANGED <<cap, results>>
Done == pc \in {"done", "unspecified"}
Step == Start \/ Initialize \/ Parse \/ Before \/ Flags \/ Act

Outcome == [res |-> res, results |-> results, out |-> text.out, err |-> text.err, bufs |-> [i \in 1..Len(bufs) |-> bufs[i].text]]
Agrees(obs) == pc = "unspecified" \/ "notty" \in DOMAIN obs \/ ("res" \in DOMAIN obs /\ obs = Outcome)

(* Text without its escape sequences *)
RECURSIVE Strip(_)
Strip(t) == IF t = "" THEN "" ELSE IF Ch(t, 1) = "~" THEN Strip(Drop(t, IndexOf(t, "m"))) ELSE Ch(t, 1) \o Strip(Drop(t, 1))
RECURSIVE Unstyled(_)
Unstyled(os) ==
  IF os = <<>> THEN ""
  ELSE LET o == Head(os) IN
       (IF o.op = "print" THEN o.t
        ELSE IF o.op = "render" THEN (IF \A i \in 1..Len(o.pieces) : Parses(o.pieces[i]) THEN Render(o.pieces, FALSE) ELSE "")
        ELSE IF o.w = "out" THEN Written(o, FALSE) ELSE "") \o Unstyled(Tail(os))
Emojis(os) == \E i \in 1..Len(os) : \E j \in 1..Len(os[i].pieces) : os[i].pieces[j].k = "emoji"
Never == cap.out = FALSE /\ sc.uses = <<>> /\ sc.before = <<>> /\ sc.argv = <<>> /\ sc.out \in {"mem", "cli"}
         /\ \A i \in 1..Len(sc.ops) : sc.ops[i].op \notin {"set", "wset"}
Safety ==
  \* apart from emoji, color adds escape sequences to the text and changes nothing else
  /\ pc = "done" /\ res = "ok" /\ ~Emojis(sc.ops) => Strip(text.out) = Unstyled(sc.ops)
  /\ pc = "done" /\ Never => IndexOf(text.out, "~") = 0
=============================================================================
