SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Len1 = 2
CONSTANT Wide = FALSE
INVARIANT Safety
CHECK_DEADLOCK FALSE
