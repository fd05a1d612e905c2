SPECIFICATION Spec
CONSTANTS
  NPes = 4
  MaxN = 2
  MaxStride = 3
  Kinds = {"broadcast", "fcollect", "collect", "alltoall", "alltoalls"}
  Emitting = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Broadcast Same Concat Transposed TransposedS Commutes Extremes
CHECK_DEADLOCK FALSE
