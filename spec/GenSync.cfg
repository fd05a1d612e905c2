SPECIFICATION Spec
CONSTANTS
  NPes = 3
  MaxCalls = 2
  Emitting = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Together Complete
CHECK_DEADLOCK TRUE
