SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "dispatch"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
