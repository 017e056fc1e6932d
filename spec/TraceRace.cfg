INIT TraceInit
NEXT TraceNext
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANT Handles = {1}
