SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  StorageRules = TRUE
  Keys = {1, 2, 3}
  MaxRows = 2
  MaxDepth = 5
VIEW View
INVARIANT LaidOut Apart AllSortedUnique
PROPERTY OthersUntouched RowOps
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
