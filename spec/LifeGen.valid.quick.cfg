SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "valid"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
