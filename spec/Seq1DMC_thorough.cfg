SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  StorageRules = TRUE
  Vals = {1, 2}
  MaxLen = 3
  MaxDepth = 7
VIEW View
INVARIANT Enough NoSharing Laws
PROPERTY OthersUntouched CapacityNeverLowered
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
