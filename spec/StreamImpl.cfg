SPECIFICATION Spec
INVARIANTS Refines Conserved
CHECK_DEADLOCK FALSE
