INIT GInit
NEXT GNext
INVARIANT Emit
INVARIANT TypeOK
CONSTANT Regs = {1, 2, 3}
CHECK_DEADLOCK FALSE
