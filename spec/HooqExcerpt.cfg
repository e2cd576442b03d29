SPECIFICATION Spec
INVARIANTS Agrees Sound
CHECK_DEADLOCK FALSE
