SPECIFICATION Spec
CONSTANTS
  AKinds = {"put", "putn", "add", "fadd", "faddn"}
  BKinds = {"put", "putn", "add", "fadd", "faddn"}
  Syncs = {"none", "fence", "quiet", "barrier", "sync", "alloc"}
  Syncs2 = {"none"}
  CtxsUsed = {0, 1}
  ATargets = {0, 1, 2}
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Kept NoStale Once Quieted
CHECK_DEADLOCK FALSE
