SPECIFICATION Spec
INVARIANT Laws
PROPERTY OnlyThere
CHECK_DEADLOCK FALSE
POSTCONDITION Written
