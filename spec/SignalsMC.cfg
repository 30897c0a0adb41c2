SPECIFICATION Spec
CONSTANTS
  Listed = {11, 8}
  Other = {10}
  Disps = {0, 1, 2, 4, 6}
  MaxDepth = 7
VIEW View
INVARIANT TypeOK
PROPERTY ResetRestores OthersUntouched
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
