SPECIFICATION TraceSpec
CONSTANTS
  Objs = {1, 2, 3}
  Views = {1, 2, 3, 4}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
