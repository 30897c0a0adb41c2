SPECIFICATION TraceSpec
CONSTANT GuardIds = {0,1,2,3,4,5,6,7}
INVARIANT TypeOK TrapsExact
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
