SPECIFICATION Spec
INVARIANTS Complete NeverTooMuch NothingLost
PROPERTY Returns
CHECK_DEADLOCK FALSE
