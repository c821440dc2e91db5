SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Group = "order"
CONSTANT Deep = TRUE
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
