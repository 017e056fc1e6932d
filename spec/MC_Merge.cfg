SPECIFICATION Spec
CONSTANTS KeyMax = 3  Thresholds = {0, 8}
INVARIANTS OneOwner Sorted1 Result Cheap Fits Bounds
CHECK_DEADLOCK TRUE
PROPERTY Terminates
