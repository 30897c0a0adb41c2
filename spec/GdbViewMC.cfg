SPECIFICATION MCSpec
CONSTANTS MaxDims = 3
 MaxExtent = 3
INVARIANTS Ranks Places Unpermuted Permuted
CHECK_DEADLOCK FALSE
