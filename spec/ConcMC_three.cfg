SPECIFICATION Spec
CONSTANTS NThreads = 3
 MaxOps = 1
 Split = FALSE
ACTION_CONSTRAINT Emit
INVARIANTS Right RightAlways
CHECK_DEADLOCK FALSE
