SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "source"
CONSTANT MaxUses = 2
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
