SPECIFICATION Spec
INVARIANT Reasonable
CHECK_DEADLOCK FALSE
