SPECIFICATION TraceSpec
CONSTANTS
  Listed = {1,2,3,4,5,6,29,8,7,11,31,13,15}
  Other = {9,10,14,23,28}
  Disps = {0,1,2,3,4,5,6}
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
