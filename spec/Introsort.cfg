SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Keys = {0, 1, 2, 3}
  Threshold = 3
  MaxRanges = 2
INVARIANT Paired StackFits DoneSorted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
