CONSTANTS
  Keys <- QuickKeys
  Masks = {90, 255}
SPECIFICATION Spec
INVARIANTS Operands ResultOk CallsOk
CHECK_DEADLOCK FALSE
