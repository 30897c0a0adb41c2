VIEW View
SPECIFICATION Spec
CONSTANTS NThreads = 3
 MaxOps = 2
 Split = FALSE
INVARIANTS Right RightAlways
CHECK_DEADLOCK FALSE
