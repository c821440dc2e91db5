SPECIFICATION TraceSpec
CONSTANT Scen <- TraceScen
INVARIANT Safety
CHECK_DEADLOCK FALSE
