SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Deep = FALSE
INVARIANT Safety
CHECK_DEADLOCK FALSE
