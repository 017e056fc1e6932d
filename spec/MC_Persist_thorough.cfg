SPECIFICATION Spec
CONSTANTS
  Addresses = {1, 2, 3, 4}
  Values = {1, 2}
  Saves = 3
  Changes = 2
  Holding = TRUE
CONSTRAINT Small
INVARIANTS Durable Registered NothingTwice
CHECK_DEADLOCK FALSE
