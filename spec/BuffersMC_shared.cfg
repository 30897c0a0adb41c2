SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  TheKind = "shared"
  MaxLen = 2
  MaxDepth = 4
VIEW View
INVARIANT Type Places
PROPERTY NeverLost
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
