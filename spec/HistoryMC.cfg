SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANT MonitorIsExact
CHECK_DEADLOCK FALSE
