SPECIFICATION Spec
INVARIANTS SignatureRight MemoryFits WorkBounded
CHECK_DEADLOCK FALSE
