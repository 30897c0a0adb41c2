SPECIFICATION MCSpec
CONSTANTS MaxDims = 4
 MaxExtent = 3
INVARIANTS Ranks Places Unpermuted Permuted
CHECK_DEADLOCK FALSE
