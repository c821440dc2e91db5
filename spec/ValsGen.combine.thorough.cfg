SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "combine"
CONSTANT MaxUses = 4
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
