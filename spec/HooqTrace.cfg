SPECIFICATION Spec
INVARIANT WellNested
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
