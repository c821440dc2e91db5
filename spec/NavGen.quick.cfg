SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Deep = 2
INVARIANT Safety
CHECK_DEADLOCK FALSE
