SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "dispatch"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
