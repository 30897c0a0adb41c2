SPECIFICATION Spec
CONSTANTS
  GuardIds = {1, 2}
  Sets <- AllSets
  MaxDepth = 30
VIEW View
INVARIANT TypeOK TrapsExact
PROPERTY GuardRestores OnlyFlushByFPE
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
