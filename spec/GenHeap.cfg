SPECIFICATION Spec
CONSTANTS
  PageSize = 4096
  Units = 3
  MaxBlocks = 3
  MaxDepth = 4
  Kinds = {"malloc"}
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Blocks Within AllBack Answered NoEmpty
CHECK_DEADLOCK FALSE
