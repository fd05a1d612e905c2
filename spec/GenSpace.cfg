SPECIFICATION Spec
CONSTANTS
  PageSize = 4096
  ConfLevel = 2
  NSpaces = 2
  Pages = 2
  MaxCtx = 1
  MaxBlocks = 2
  MaxDepth = 9
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Blocks Within Contexts Reach2 AllBack
CHECK_DEADLOCK FALSE
