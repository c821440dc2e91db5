------------------------------- MODULE Parse -------------------------------
(* The binder run one decision at a time, with the properties of C01 and C02. *)
EXTENDS Binder

VARIABLES sid, b, done
vars == <<sid, b, done>>

InitWith(raw, id) == sid = id /\ b = BInit(raw) /\ done = FALSE
Step == ~BDone(b) /\ b' = BStep(b) /\ UNCHANGED <<sid, done>>
Outcome == BOutcome(b)
MarkDone == BDone(b) /\ ~done /\ done' = TRUE /\ UNCHANGED <<sid, b>>

------------------------------------------------------------------------------
(* Properties *)
log == b.log
Consumed == FlattenSeq([i \in 1..Len(log) |-> log[i].toks])

(* Every token is accounted for exactly once, in order. *)
Held == CASE b.pc \in {"arg", "flag"} -> <<b.cur>>
          [] b.pc \in {"short", "take"} -> b.pend.toks
          [] OTHER -> <<>>
Conservation == b.err = "ok" => Consumed \o Held \o b.rest = Tokens(b.sc)

(* Positional values are given to the arguments in declaration order. *)
ArgOrder == \A i, j \in 1..Len(log) :
   (i < j /\ log[i].what = "arg" /\ log[j].what = "arg") => log[i].i <= log[j].i

(* Counts are respected, also before the end. *)
CountOf(i) == Len(SelectSeq(log, LAMBDA e : e.what = "arg" /\ e.i = i))
Limit(cnt) == CASE cnt \in {"str", "n0", "n1", "o1"} -> 1 [] cnt = "n2" -> 2 [] cnt = "n3" -> 3 [] cnt = "nv" -> 2
                [] OTHER -> 1000
Counts == \A i \in 1..Len(b.sc.args) :
   /\ CountOf(i) <= Limit(b.sc.args[i].cnt)
   /\ (b.pc = "convert" /\ b.sc.args[i].cnt \in {"n1", "n2", "n3"}) => CountOf(i) = Limit(b.sc.args[i].cnt)

(* A token that looks like a flag is an argument's value only after `--`, or *)
(* when the argument takes everything (or decides for itself).               *)
NoFlagAsArg == \A i \in 1..Len(log) :
   (log[i].what = "arg" /\ LooksLikeFlag(log[i].vals[1]) /\ b.sc.args[log[i].i].cnt \notin {"m1", "m7", "o1", "exec", "nv"})
     => \E j \in 1..(i - 1) : log[j].what = "sep"

(* No flag is recognised after `--`. *)
SepStops == \A i, j \in 1..Len(log) : (i < j /\ log[i].what = "sep") => log[j].what \notin {"flag", "named"}

(* A command ends with its terminator, which it has once, at its end. *)
ExecVals(i) == LET o == SelectSeq(log, LAMBDA e : e.what = "arg" /\ e.i = i) IN [j \in 1..Len(o) |-> o[j].vals[1]]
Terminated == \A i \in 1..Len(b.sc.args) : b.sc.args[i].cnt = "exec" =>
   LET v == ExecVals(i) IN /\ \A j \in 1..(Len(v) - 1) : v[j] \notin {";", "+"}
                           /\ (b.pc = "convert" => v # <<>> /\ v[Len(v)] \in {";", "+"})

Safety == b.phase = "run" => (Conservation /\ ArgOrder /\ Counts /\ NoFlagAsArg /\ SepStops /\ Terminated)

(* The log only grows, and no token is read twice. *)
LogGrows == [][b'.phase = b.phase => Len(b'.log) >= Len(log) /\ SubSeq(b'.log, 1, Len(log)) = log]_vars
Progress == [][b'.phase = b.phase => Len(b'.rest) <= Len(b.rest)]_vars
=============================================================================
