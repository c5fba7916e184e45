SPECIFICATION Spec
INVARIANTS Positional Reversible
CHECK_DEADLOCK FALSE
