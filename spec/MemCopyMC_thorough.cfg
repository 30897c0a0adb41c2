SPECIFICATION Spec
CONSTANTS Most = 4
 Deep = FALSE
ACTION_CONSTRAINT Emit
INVARIANTS Decided RunIsEntries ViewKeeps
CHECK_DEADLOCK FALSE
