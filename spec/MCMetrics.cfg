SPECIFICATION Spec
INVARIANT MetricsOk
CHECK_DEADLOCK FALSE
