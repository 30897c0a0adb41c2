SPECIFICATION TraceSpec
CONSTANTS
  Handles = {1, 2, 3}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
