SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT MaxLen = 5
INVARIANT Safety
CHECK_DEADLOCK FALSE
