SPECIFICATION TraceSpec
CONSTANTS
  Most = 25
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
