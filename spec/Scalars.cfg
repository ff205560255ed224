SPECIFICATION Spec
INVARIANTS ScalarsRight BytesRight
CHECK_DEADLOCK FALSE
