SPECIFICATION Spec
INVARIANTS ColoursShow Same
CHECK_DEADLOCK FALSE
