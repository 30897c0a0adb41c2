SPECIFICATION TraceSpec
CONSTANTS
  Objs = {1, 2, 3, 4, 5}
  Mats = {1, 2, 3}
  StorageRules <- CapFacet
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
