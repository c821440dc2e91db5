SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "order"
CONSTANT Deep = FALSE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
