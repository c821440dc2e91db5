SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "dyn"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
