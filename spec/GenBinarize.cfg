SPECIFICATION Spec
INVARIANT SoundHolds
CHECK_DEADLOCK FALSE
