SPECIFICATION Spec
INVARIANT ModelOk
INVARIANT Alone
INVARIANT Apart
CHECK_DEADLOCK FALSE
