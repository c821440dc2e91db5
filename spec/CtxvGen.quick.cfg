SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Max = 2
INVARIANT Safety
CHECK_DEADLOCK FALSE
