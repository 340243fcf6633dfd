SPECIFICATION Spec
CONSTANT MaxLocs = 4
INVARIANTS Ordered NothingBeforeDetection OneResultEach Independent
PROPERTY Returns
CHECK_DEADLOCK FALSE
