SPECIFICATION MCSpec
CONSTANT Around = 60
INVARIANT NonEmpty AtMostTwo OneUnit Largest
CHECK_DEADLOCK FALSE
