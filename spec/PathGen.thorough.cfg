SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Len1 = 3
CONSTANT Wide = TRUE
INVARIANT Safety
CHECK_DEADLOCK FALSE
