SPECIFICATION Spec
CONSTANTS Regs = {1, 2}  n = 3  Vals = {0, 1, 2}  What = "maps"
INVARIANTS MapsRefine Truthful
CHECK_DEADLOCK FALSE
