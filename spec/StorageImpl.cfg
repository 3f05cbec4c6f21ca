SPECIFICATION Spec
INVARIANTS Opens Sees Keeps Tells WriterAgrees
CHECK_DEADLOCK FALSE
