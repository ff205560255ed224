SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT TypeOK
INVARIANT Law
PROPERTY FailAtomic
PROPERTY Frame
