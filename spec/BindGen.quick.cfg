SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Max = 1
INVARIANT Safety
CHECK_DEADLOCK FALSE
