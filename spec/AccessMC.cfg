SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Readable Consistent Honest Idempotent
PROPERTIES Monotone Views ReadOnly ReadOnlyDeep
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
