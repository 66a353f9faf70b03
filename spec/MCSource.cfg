SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Content
INVARIANT Surfaces
PROPERTY Ends
CHECK_DEADLOCK FALSE
