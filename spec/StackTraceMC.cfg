SPECIFICATION Spec
CONSTANTS
  Most = 4
  Outer = 2
  Functions = {1, 2, 7}
  MaxDepth = 6
VIEW View
INVARIANT Complete Innermost Same
PROPERTY OneMore
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
