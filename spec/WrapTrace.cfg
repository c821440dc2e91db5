SPECIFICATION TraceSpec
CONSTANTS Scen <- TraceScen
  Written <- TraceWritten
INVARIANT Safety
CHECK_DEADLOCK FALSE
