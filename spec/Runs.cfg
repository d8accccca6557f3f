SPECIFICATION Spec
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
