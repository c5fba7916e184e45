SPECIFICATION Spec
INVARIANTS NoSecondValue NeverDominated
CHECK_DEADLOCK FALSE
