SPECIFICATION Spec
INVARIANTS ModelOk LawsOk
VIEW Reached
CHECK_DEADLOCK FALSE
