SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Deep = TRUE
INVARIANT Safety
CHECK_DEADLOCK FALSE
