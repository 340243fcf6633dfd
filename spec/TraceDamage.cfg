SPECIFICATION Spec
INVARIANTS Explained
CHECK_DEADLOCK FALSE
