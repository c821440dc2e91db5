SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "timing"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
