SPECIFICATION TraceSpec
INVARIANT Safety
PROPERTIES LogGrows Progress
CHECK_DEADLOCK FALSE
