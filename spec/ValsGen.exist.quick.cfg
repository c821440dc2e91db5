SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "exist"
CONSTANT MaxUses = 2
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
