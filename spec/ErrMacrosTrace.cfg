SPECIFICATION TraceSpec
CONSTANT Handlers = {1, 2, 3}
INVARIANT TypeOK DeadOnlyWithoutHandler
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
