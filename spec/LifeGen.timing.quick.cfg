SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "timing"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
