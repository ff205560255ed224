SPECIFICATION Spec
INVARIANT Complete
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
