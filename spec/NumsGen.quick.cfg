SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT MaxLen = 4
INVARIANT Safety
CHECK_DEADLOCK FALSE
