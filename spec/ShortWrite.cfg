SPECIFICATION Spec
INVARIANTS Prefix Complete Emit
PROPERTY Stops
CHECK_DEADLOCK FALSE
