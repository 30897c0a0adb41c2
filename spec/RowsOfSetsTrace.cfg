SPECIFICATION TraceSpec
CONSTANTS
  Objs = {1, 2, 3}
  StorageRules <- CapFacet
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
