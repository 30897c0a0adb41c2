SPECIFICATION Spec
CONSTANT MaxDepth = 5
VIEW View
INVARIANT Type
PROPERTY Local Moves
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
