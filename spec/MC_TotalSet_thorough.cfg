SPECIFICATION Spec
CONSTANTS Regs = {1, 2}  n = 5  Vals = {0, 1, 2}  What = "sets"
INVARIANTS SetsRefine Truthful
CHECK_DEADLOCK FALSE
