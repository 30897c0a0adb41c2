SPECIFICATION Spec
CONSTANTS
  Short = 7
  Longer = 9
  Edits = 1
INVARIANTS Sound Unique Typed Complete
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
