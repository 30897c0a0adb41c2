SPECIFICATION Spec
CONSTANTS
  Wide = 2
INVARIANT Strict
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
