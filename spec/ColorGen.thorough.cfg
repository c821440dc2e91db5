SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Max = 4
INVARIANT Safety
CHECK_DEADLOCK FALSE
