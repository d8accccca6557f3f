SPECIFICATION Spec
INVARIANTS Invariant Ids OneEach HeadersAgree Several
PROPERTIES Frozen Grows
CHECK_DEADLOCK FALSE
