SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Wide = TRUE
INVARIANT Safety
CHECK_DEADLOCK FALSE
