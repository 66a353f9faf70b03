SPECIFICATION Spec
INVARIANT ModelOk
INVARIANT Kept
PROPERTY Frame
CHECK_DEADLOCK FALSE
