SPECIFICATION Spec
INVARIANT PostNamesOk
CHECK_DEADLOCK FALSE
