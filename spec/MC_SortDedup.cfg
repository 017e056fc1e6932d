SPECIFICATION Spec
CONSTANTS KeySet = {0, 1, 2}  MaxLen = 7  Threshold = 3
INVARIANTS SortedPrefix Result Content Storage Agrees
CHECK_DEADLOCK FALSE
