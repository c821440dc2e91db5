SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Text <- GenText
CONSTANT Max = 5
CONSTANT Wide = FALSE
INVARIANT Safety
CHECK_DEADLOCK FALSE
