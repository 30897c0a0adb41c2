SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
