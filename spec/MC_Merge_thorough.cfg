SPECIFICATION Spec
CONSTANTS KeyMax = 5  Thresholds = {0, 3, 8}
INVARIANTS OneOwner Sorted1 Result Cheap Fits Bounds
CHECK_DEADLOCK TRUE
