SPECIFICATION Spec
CONSTANTS
  NPes = 2
  MaxOps = 2
  Kinds = {"finc", "add", "swap", "cswap", "set", "fetch"}
  Nbs = {FALSE}
  Emitting = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Counted Chained OneWinner Linearizable Reported
CHECK_DEADLOCK TRUE
