SPECIFICATION Spec
INVARIANT Promised
