SPECIFICATION Spec
INVARIANT AllInside
CHECK_DEADLOCK FALSE
