SPECIFICATION Spec
CONSTANTS
  NPes = 2
  MaxOps = 2
  Flagged = {"wait", "testloop", "g", "get", "iget", "nbi", "fetch"}
  Locked = {"set_lock", "lockspin"}
  Joined = {"barrier", "barrier_all", "sync", "sync_all", "team_sync", "bcast", "collect", "fcollect", "alltoall", "alltoalls", "reduce", "malloc", "calloc", "align", "free", "realloc", "split", "split2d", "team_destroy", "attach", "detach", "space_malloc", "finalize"}
  Kinds = {"inc", "fadd", "cswap", "set", "put", "iput", "get", "iget", "nbi", "quiet"}
  Deaf = {}
  Emitting = TRUE
INVARIANT Held
PROPERTY Ends
ACTION_CONSTRAINT Emit
