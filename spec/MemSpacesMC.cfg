SPECIFICATION Spec
CONSTANTS Kinds = {"array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs"}
 MaxDepth = 5
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS NeverStale ReadsLatest
CHECK_DEADLOCK FALSE
