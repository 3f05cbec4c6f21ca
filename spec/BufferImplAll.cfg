SPECIFICATION Spec
INVARIANTS Allowed Counts Intact
VIEW View
CHECK_DEADLOCK FALSE
