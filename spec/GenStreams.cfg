SPECIFICATION Spec
INVARIANT AllSane
CHECK_DEADLOCK FALSE
