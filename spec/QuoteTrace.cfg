SPECIFICATION TraceSpec
CONSTANT Scen <- TraceScen
CONSTANT Text <- TraceText
INVARIANT Safety
CHECK_DEADLOCK FALSE
