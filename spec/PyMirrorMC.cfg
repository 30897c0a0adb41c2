SPECIFICATION Spec
CONSTANTS
  Kinds = {"a1d", "a2l", "a3f", "str", "sd", "ai", "ti", "md"}
  MaxDepth = 2
  Wide = FALSE
VIEW View
INVARIANT Type Ordered ViewsHold
PROPERTY Guarded Untouchable ReadOnlyFirst Harmless
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
