SPECIFICATION Spec
CONSTANTS
  Objects = {1,2}
  MaxDepth = 9
  ModelKinds = {"buffer", "array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs"}
VIEW View
INVARIANT AsManyAsCopies Named
PROPERTY OnceNamed
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
