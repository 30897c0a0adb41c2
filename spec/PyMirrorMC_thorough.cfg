SPECIFICATION Spec
CONSTANTS
  Kinds = {"a1i", "a2d", "a3f", "str", "si", "ad", "tl", "mi"}
  MaxDepth = 3
  Wide = FALSE
VIEW View
INVARIANT Type Ordered ViewsHold
PROPERTY Guarded Untouchable ReadOnlyFirst Harmless
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
