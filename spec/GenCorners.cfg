SPECIFICATION Spec
INVARIANT Unambiguous
CHECK_DEADLOCK FALSE
