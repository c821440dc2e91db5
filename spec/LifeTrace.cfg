SPECIFICATION TraceSpec
CONSTANT Scen <- TraceScen
CHECK_DEADLOCK FALSE
