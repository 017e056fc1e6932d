INIT TraceInit
NEXT TraceNext
INVARIANT Ok
CONSTANT Regs = {1, 2, 3}
CHECK_DEADLOCK FALSE
