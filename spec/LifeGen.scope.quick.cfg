SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "scope"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
