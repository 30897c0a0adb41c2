SPECIFICATION Spec
CONSTANTS
  GuardIds = {1, 2}
  Sets <- MCSets
  MaxDepth = 30
VIEW View
INVARIANT TypeOK TrapsExact
PROPERTY GuardRestores OnlyFlushByFPE
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
