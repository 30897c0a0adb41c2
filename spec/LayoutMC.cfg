SPECIFICATION Spec
CONSTANTS
  MaxDims = 4
  MaxExtent = 3
INVARIANT OneToOne UnitStride Growing Lexicographic LexAgrees SliceAgrees
CHECK_DEADLOCK FALSE
