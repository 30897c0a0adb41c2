SPECIFICATION Spec
CONSTANTS
  Most2 = 5
  Most3 = 2
INVARIANT Real Invariant Symmetric Simple Obvious
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
