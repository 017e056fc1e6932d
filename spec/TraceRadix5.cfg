INIT TraceInit
NEXT TraceNext
INVARIANT Ok
CONSTANT Regs = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
