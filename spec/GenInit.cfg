SPECIFICATION Spec
CONSTANTS
  PageSize = 4096
  ConfLevel = 2
  MaxDepth = 4
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Honest Once
CHECK_DEADLOCK FALSE
