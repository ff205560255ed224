SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT TypeOK
INVARIANT Refines
INVARIANT InBounds
INVARIANT Reached
INVARIANT Printed
