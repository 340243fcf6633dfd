SPECIFICATION Spec
INVARIANT RepairsHold
CHECK_DEADLOCK FALSE
