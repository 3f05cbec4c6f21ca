SPECIFICATION Spec
INVARIANTS Refines Conserved
PROPERTY Ends
CHECK_DEADLOCK FALSE
