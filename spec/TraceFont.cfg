INIT TraceInit
NEXT TraceNext
VIEW View
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
