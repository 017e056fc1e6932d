CONSTANTS
  Threads = {1, 2}
  Slots = {1}
  Kids <- TheKids
  MaxOps = 2
  Vals = 2
  Eager = TRUE
  Panics = 0
SPECIFICATION LiveSpec
INVARIANTS Contents Truthful LoadedOnce Counted NoGarbage NoRace OwnWhenChanged Held
PROPERTY Returns
CHECK_DEADLOCK FALSE
