SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Whole
INVARIANT Fused
INVARIANT Agree
INVARIANT Printed
