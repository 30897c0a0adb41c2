SPECIFICATION Spec
CONSTANTS NThreads = 2
 MaxOps = 2
 Split = FALSE
ACTION_CONSTRAINT Emit
INVARIANTS Right RightAlways
CHECK_DEADLOCK FALSE
