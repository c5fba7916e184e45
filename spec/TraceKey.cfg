SPECIFICATION Spec
INVARIANT Spent
CHECK_DEADLOCK TRUE
