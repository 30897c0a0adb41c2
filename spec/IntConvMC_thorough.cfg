SPECIFICATION Spec
CONSTANT MaxBits = 8
INVARIANT Faithful NoWrapBeforeCheck
CHECK_DEADLOCK FALSE
