SPECIFICATION Spec
INVARIANTS Spent Unique OkIsWhole Usable
PROPERTIES Refines AllEnd
CHECK_DEADLOCK FALSE
