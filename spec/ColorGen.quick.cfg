SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Max = 3
INVARIANT Safety
CHECK_DEADLOCK FALSE
