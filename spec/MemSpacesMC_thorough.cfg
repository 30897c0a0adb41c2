SPECIFICATION Spec
CONSTANTS Kinds = {"array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs"}
 MaxDepth = 7
VIEW View
CONSTRAINT Bound
INVARIANTS NeverStale ReadsLatest
CHECK_DEADLOCK FALSE
