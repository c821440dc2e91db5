------------------------------ MODULE BitsGen ------------------------------
(* Every small map of features with every value; every pair of options and   *)
(* every set of filters, written and read back; every name of the rest.      *)
EXTENDS Bits, Json
CONSTANT Max
VARIABLE judged

GenScen(x) == x
Sorted(b) == SelectSeq(<<0, 1, 2, 3>>, LAMBDA x : x \in b)
Masks == SUBSET (0..3) \ {{}}
T(do, ty, keys, v, set, text) == [do |-> do, type |-> ty, keys |-> keys, v |-> v, set |-> set, text |-> text]
RECURSIVE Listed(_)
Listed(ms) == IF ms = {} THEN <<>> ELSE LET m == CHOOSE x \in ms : \A y \in ms : Value(x) <= Value(y) IN <<Sorted(m)>> \o Listed(ms \ {m})
Values16 == Listed(SUBSET (0..3))
Features(ms) == [i \in 1..16 |-> T("features", "", Listed(ms), Values16[i], <<>>, "")]
Both(ty, set, from, text) == <<T("write", ty, <<>>, <<>>, set, ""), T("read", ty, <<>>, <<>>, from, text)>>
Opts == {s \in SUBSET (1..Len(OptionNames)) : Cardinality(s) <= 2}
AsSeq(names, s) == SelectSeq(names, LAMBDA n : \E i \in s : names[i] = n)
GenInit ==
  /\ judged = FALSE
  /\ \E steps \in {Features(ms) : ms \in {s \in SUBSET Masks : Cardinality(s) <= Max}}
               \cup {Both("option", AsSeq(OptionNames, s), <<>>, Written("option", Range(AsSeq(OptionNames, s)))) : s \in {{a, b} : a \in 1..24, b \in 1..24}}
               \cup {Both("filter", AsSeq(FilterNames, s), AsSeq(FilterNames, o), Written("filter", Range(AsSeq(FilterNames, s)))) : s \in SUBSET (1..6), o \in {{}, {1}, {4, 5}}}
               \cup {Both("timing", <<a>>, <<b>>, a) : a \in TimingNames, b \in TimingNames}
               \cup {Both("mode", <<a>>, <<b>>, x) : a \in {"auto", "always", "never"}, b \in {"auto", "always", "never"},
                                                     x \in {"auto", "always", "never", "true", "false", "on", "off", "", "NEVER", "Off", "no", " on"}}
               \cup {Both(ty, <<n>>, <<n>>, x) : ty \in {"option"}, n \in {"MERGE"}, x \in {"", ",", " , HIDDEN ,,", "HIDDEN,HIDDEN", "hidden", "HIDDEN REQUIRED", "NOPE,TRIGGER", "EXITS,NOPE"}}
               \cup {Both("filter", <<n>>, <<n>>, x) : n \in {"SEEN"}, x \in {"", "NOPE", " ANYTHING ", "ANY_FLAG,ANY_ARG", "ANY_ARG , NOPE", "any_flag"}} :
       BitsInit([steps |-> steps])
Emit == /\ Done /\ ~judged /\ judged' = TRUE
        /\ PrintT(<<"CASE", ToJson([sc |-> sc, exp |-> Outcome])>>)
        /\ UNCHANGED vars
GenNext == (Step /\ UNCHANGED judged) \/ Emit
GenSpec == GenInit /\ [][GenNext]_<<vars, judged>>
=============================================================================
