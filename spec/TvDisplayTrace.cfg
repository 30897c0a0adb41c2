SPECIFICATION TraceSpec
CONSTANT Cap = 16384
INVARIANT NeverOverrun
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
