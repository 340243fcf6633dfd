SPECIFICATION Spec
INVARIANTS InBounds Faithful Generous
PROPERTIES RefusalIsNoOp
CHECK_DEADLOCK FALSE
