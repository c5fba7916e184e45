SPECIFICATION Spec
INVARIANT SignatureRight
CONSTANT OldStarvation = FALSE
