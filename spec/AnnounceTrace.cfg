SPECIFICATION TraceSpec
CONSTANT Objects = {1,2}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
