SPECIFICATION Spec
CONSTANTS
  Most = 4
  Outer = 2
  Functions = {1, 2}
  MaxDepth = 9
VIEW View
INVARIANT Complete Innermost Same
PROPERTY OneMore
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
