CONSTANTS
  Keys <- ThoroughKeys
  Masks = {0, 90, 204, 255}
SPECIFICATION Spec
INVARIANTS Operands ResultOk CallsOk
CHECK_DEADLOCK FALSE
