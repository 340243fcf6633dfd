SPECIFICATION Spec
INVARIANT Taken
CHECK_DEADLOCK FALSE
