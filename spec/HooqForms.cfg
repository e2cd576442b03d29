CONSTANTS MaxLen = 3
MaxInner = 2
SPECIFICATION Spec
INVARIANTS TemplatesSound EmptyKnown
CHECK_DEADLOCK FALSE
