SPECIFICATION GenSpec
CONSTANT Scen <- GenScen
CONSTANT Text <- GenText
CONSTANT Max = 6
CONSTANT Wide = TRUE
INVARIANT Safety
CHECK_DEADLOCK FALSE
