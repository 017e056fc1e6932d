SPECIFICATION Spec
CONSTANTS
  Keys = {0, 1, 2, 3, 4}
  Vals = {0, 1, 2}
INVARIANT Identifies
