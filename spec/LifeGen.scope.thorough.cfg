SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "scope"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
