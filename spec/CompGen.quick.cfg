SPECIFICATION GenSpec
CONSTANTS
  Scen <- GenScen
  MaxToks = 1
  Wide = FALSE
INVARIANT Safety
CHECK_DEADLOCK FALSE
