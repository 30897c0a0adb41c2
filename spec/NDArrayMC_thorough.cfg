SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  StorageRules = TRUE
  Dims = {1, 2, 3}
  MaxExtent = 2
  MaxDepth = 5
VIEW View
INVARIANT Same Enough
PROPERTY ElementsKept OthersUntouched CapacityNeverLowered
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
