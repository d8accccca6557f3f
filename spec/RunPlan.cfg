SPECIFICATION Spec
INVARIANT Complete
PROPERTY Kept Untouched
CHECK_DEADLOCK FALSE
