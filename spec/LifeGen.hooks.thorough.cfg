SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "hooks"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
