SPECIFICATION Spec
INVARIANTS Repairs Sound
CHECK_DEADLOCK FALSE
