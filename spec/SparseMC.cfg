SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2, 4}
  Mats = {1, 2}
  StorageRules = TRUE
  Keys = {0, 1, 2}
  MaxRows = 2
  MaxDepth = 3
VIEW View
INVARIANT LaidOut Apart Valid
PROPERTY OthersSame RowOps AddsHit EntriesFollow
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
