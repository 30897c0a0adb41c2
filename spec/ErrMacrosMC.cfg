SPECIFICATION Spec
CONSTANTS
  Handlers = {1, 2}
  MaxCalls = 1
VIEW View
INVARIANT TypeOK DeadOnlyWithoutHandler
PROPERTY OneCall
CONSTRAINT Small
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
