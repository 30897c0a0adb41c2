SPECIFICATION Spec
CONSTANTS
  Kinds = {"a1d", "a1i", "a1s", "a2l", "a2d", "a3f", "str", "sd", "si", "ai", "ad", "ti", "tl", "md", "mi"}
  MaxDepth = 1
  Wide = TRUE
VIEW View
INVARIANT Type Ordered ViewsHold
PROPERTY Guarded Untouchable ReadOnlyFirst Harmless
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
