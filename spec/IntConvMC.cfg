SPECIFICATION Spec
CONSTANT MaxBits = 5
INVARIANT Faithful NoWrapBeforeCheck
CHECK_DEADLOCK FALSE
