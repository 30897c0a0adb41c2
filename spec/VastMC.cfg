SPECIFICATION Spec
CONSTANTS
  Extents = {0, 1, 3, 1234}
INVARIANT Agrees Arithmetic
CHECK_DEADLOCK FALSE
