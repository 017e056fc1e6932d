INIT GInit
NEXT GNext
INVARIANT Emit
INVARIANT TypeOK
CONSTANT Regs = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
