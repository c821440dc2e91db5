SPECIFICATION GenSpec
CONSTANT MaxLen = 6
INVARIANT Safety
PROPERTIES LogGrows Progress
CHECK_DEADLOCK FALSE
