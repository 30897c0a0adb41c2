SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  StorageRules = TRUE
  Keys = {1, 2, 3}
  MaxDepth = 5
VIEW View
INVARIANT Enough Laws OneByOne
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
