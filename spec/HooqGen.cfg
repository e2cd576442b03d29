SPECIFICATION Spec
INVARIANT Whole
INVARIANT Nested
INVARIANT Emit
CHECK_DEADLOCK FALSE
