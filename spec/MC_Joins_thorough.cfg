CONSTANTS
  KeyMax = 4
  Vals = {0, 1}
  SeqMax = 4
  Masks = {0, 1109, 2730, 4095}
SPECIFICATION Spec
INVARIANTS Refines CalledRight Truthful
CHECK_DEADLOCK FALSE
