SPECIFICATION Spec
CONSTANTS
  Objects = {1,2}
  MaxDepth = 6
  ModelKinds = {"buffer", "array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs"}
VIEW View
INVARIANT AsManyAsCopies Named
PROPERTY OnceNamed
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
