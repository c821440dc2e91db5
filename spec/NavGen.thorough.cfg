SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Deep = 3
INVARIANT Safety
CHECK_DEADLOCK FALSE
