SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  TheKind = "records"
  MaxLen = 3
  MaxDepth = 6
VIEW View
INVARIANT Type Places
PROPERTY NeverLost
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
