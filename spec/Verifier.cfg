SPECIFICATION Spec
INVARIANTS OnlyHonest HonestAccepted
CHECK_DEADLOCK FALSE
