SPECIFICATION Spec
CONSTANTS Regs = {1, 2}  N = 1  KeyMax = 2  Tags = 2  SeqMax = 2  Threshold = 2
INVARIANTS Refines Truthful Sound Ordered
VIEW View
CHECK_DEADLOCK FALSE
