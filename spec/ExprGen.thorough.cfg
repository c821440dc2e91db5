SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT MaxToks = 4
CONSTANT Wide = TRUE
INVARIANT Safety
CHECK_DEADLOCK FALSE
