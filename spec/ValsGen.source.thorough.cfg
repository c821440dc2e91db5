SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "source"
CONSTANT MaxUses = 3
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
