CONSTANTS
  Threads = {1, 2}
  Slots = {1}
  Kids <- TheKids
  MaxOps = 3
  Vals = 2
  Eager = FALSE
  Panics = 0
SPECIFICATION Spec
INVARIANTS Contents Truthful LoadedOnce Counted NoGarbage NoRace OwnWhenChanged Held
CHECK_DEADLOCK FALSE
