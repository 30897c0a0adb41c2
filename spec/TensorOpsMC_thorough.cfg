SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
