SPECIFICATION Spec
INVARIANTS SameAsPlain OncePerEvaluation InnerFirst NothingLeft
CHECK_DEADLOCK FALSE
