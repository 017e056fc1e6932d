CONSTANTS
  Size = 4
  KeyCount = 2
  Depth = 2
SPECIFICATION Spec
INVARIANTS Sound Complete Once
CHECK_DEADLOCK FALSE
