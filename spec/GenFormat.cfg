SPECIFICATION Spec
INVARIANT UniqueReading
CHECK_DEADLOCK FALSE
