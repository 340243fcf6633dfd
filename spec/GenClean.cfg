SPECIFICATION Spec
INVARIANT RoundTripHolds
CHECK_DEADLOCK FALSE
