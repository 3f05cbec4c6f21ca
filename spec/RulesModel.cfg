SPECIFICATION Spec
INVARIANTS InForce Delivers Emit
CHECK_DEADLOCK FALSE
