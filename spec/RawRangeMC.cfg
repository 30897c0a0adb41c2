SPECIFICATION Spec
CONSTANTS
  Vals = {1, 2, 3}
  Cap = 4
  MaxDepth = 6
VIEW View
INVARIANT Laws
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
