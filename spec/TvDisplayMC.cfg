SPECIFICATION Spec
CONSTANTS
  Cap = 16384
  Lens = {2715, 5449, 8185, 16370, 16371, 16372, 20000}
VIEW View
INVARIANT TypeOK NeverOverrun
PROPERTY Grows RefusedChangesNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
