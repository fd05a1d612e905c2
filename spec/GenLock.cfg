SPECIFICATION Spec
CONSTANTS
  NPes = 3
  MaxSections = 1
  Locks = {0}
  Kinds = {"set", "test"}
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Exclusive Owned Visible
CHECK_DEADLOCK TRUE
