SPECIFICATION GenSpec
CONSTANT MaxLen = 4
INVARIANT Safety
PROPERTIES LogGrows Progress
CHECK_DEADLOCK FALSE
