CONSTANT Handles = {1, 2, 3, 4}
INIT TraceInit
NEXT TraceNext
INVARIANT Ok
CHECK_DEADLOCK FALSE
