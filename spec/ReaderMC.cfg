SPECIFICATION Spec
CONSTANTS Len0 = 4 Alphabet = {0, 16, 32, 64, 17, 40, 65, 195, 169, 255} Vers = {1, 10}
INVARIANTS InBounds ShortRun TextIsUtf8 RejectedIsEmpty SameAsRead
PROPERTIES Progress OutGrows Halts
CHECK_DEADLOCK FALSE
