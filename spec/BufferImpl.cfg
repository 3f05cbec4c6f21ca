SPECIFICATION Spec
INVARIANTS Allowed Counts Intact Emit
CHECK_DEADLOCK FALSE
