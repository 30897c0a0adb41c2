SPECIFICATION TraceSpec
INVARIANT Type Ordered ViewsHold
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
