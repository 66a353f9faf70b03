SPECIFICATION Spec
INVARIANT ModelOk
PROPERTY Independent
CHECK_DEADLOCK FALSE
