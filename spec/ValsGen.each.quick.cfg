SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "each"
CONSTANT MaxUses = 3
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
