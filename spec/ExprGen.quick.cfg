SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT MaxToks = 2
CONSTANT Wide = FALSE
INVARIANT Safety
CHECK_DEADLOCK FALSE
