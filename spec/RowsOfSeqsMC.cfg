SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  StorageRules = TRUE
  Vals = {1, 2}
  MaxRows = 2
  MaxLen = 2
  MaxDepth = 4
VIEW View
INVARIANT LaidOut Apart Laws
PROPERTY OthersUntouched RowOps
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
