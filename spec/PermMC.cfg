SPECIFICATION Spec
CONSTANT MaxDim = 4
INVARIANT Once
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
