SPECIFICATION Spec
CONSTANTS
  NPes = 4
  NPpn = 4
  MaxDepth = 2
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Agreement Ordered2 Grid ThereAndBack WorldRank
CHECK_DEADLOCK FALSE
