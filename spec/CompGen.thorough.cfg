SPECIFICATION GenSpec
CONSTANTS
  Scen <- GenScen
  MaxToks = 2
  Wide = TRUE
INVARIANT Safety
CHECK_DEADLOCK FALSE
