SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "hooks"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
