SPECIFICATION Spec
CONSTANTS
  Short = 6
  Longer = 7
  Edits = 1
INVARIANTS Sound Unique Typed Complete
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
