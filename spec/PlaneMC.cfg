SPECIFICATION Spec
INVARIANTS Equivariant Undo
CHECK_DEADLOCK FALSE
