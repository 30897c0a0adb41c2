SPECIFICATION Spec
CONSTANTS
  Most2 = 3
  Most3 = 1
INVARIANT Real Invariant Symmetric Simple Obvious
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
