SPECIFICATION Spec
CONSTANTS Components = {1, 2} MaxSets = 5
INVARIANTS LastWins BuildableExactly
PROPERTY BuiltIsFinal
CHECK_DEADLOCK FALSE
