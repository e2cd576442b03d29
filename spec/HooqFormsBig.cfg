CONSTANTS MaxLen = 4
MaxInner = 2
SPECIFICATION Spec
INVARIANTS TemplatesSound EmptyKnown
CHECK_DEADLOCK FALSE
