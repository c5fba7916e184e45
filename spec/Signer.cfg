SPECIFICATION SpecFound
INVARIANTS TypeOK Spent Wiped Usable
PROPERTIES OneByOne FailedCallsSpendNothing RefusesForEver Refines RunsOut
CHECK_DEADLOCK FALSE
