SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Wide = FALSE
INVARIANT Safety
CHECK_DEADLOCK FALSE
