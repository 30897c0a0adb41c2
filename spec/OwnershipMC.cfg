SPECIFICATION Spec
CONSTANTS
  Objs = {1,2}
  Views = {1,2}
  MaxDepth = 4
VIEW View
INVARIANT Type
PROPERTY Independent Steady
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
