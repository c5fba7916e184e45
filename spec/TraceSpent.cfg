SPECIFICATION Spec
INVARIANT Promises
