SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Vals = {0, 1, 2}
  Operands = {0, 1, 2, 3}
  Kinds = {"put", "add", "set"}
  Emitting = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Justified Woken Ended
CHECK_DEADLOCK FALSE
