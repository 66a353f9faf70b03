SPECIFICATION Spec
INVARIANT MapsOk
CHECK_DEADLOCK FALSE
