SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "dyn"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
