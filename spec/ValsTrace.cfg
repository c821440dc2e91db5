SPECIFICATION TraceSpec
CONSTANT Scen <- TraceScen
INVARIANT SafetyAtEnd
CHECK_DEADLOCK FALSE
