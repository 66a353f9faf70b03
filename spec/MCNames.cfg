SPECIFICATION Spec
INVARIANT NamesOk
CHECK_DEADLOCK FALSE
