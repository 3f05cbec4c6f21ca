SPECIFICATION Spec
INVARIANTS RoundTrip Prefix Damage Sizes Emit
CHECK_DEADLOCK FALSE
