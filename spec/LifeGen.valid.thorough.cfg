SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "valid"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
