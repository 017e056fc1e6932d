CONSTANTS
  Size = 5
  KeyCount = 2
  Depth = 3
SPECIFICATION Spec
INVARIANTS Sound Complete Once
CHECK_DEADLOCK FALSE
