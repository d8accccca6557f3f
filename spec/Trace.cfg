SPECIFICATION Spec
INVARIANTS Invariant Accepted
CHECK_DEADLOCK FALSE
