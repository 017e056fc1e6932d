SPECIFICATION Spec
CONSTANTS KeySet = {0, 1, 2, 3}  MaxLen = 8  Threshold = 4
INVARIANTS SortedPrefix Result Content Storage Agrees
CHECK_DEADLOCK FALSE
