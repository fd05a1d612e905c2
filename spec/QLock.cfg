SPECIFICATION Spec
CONSTANTS
  Pes = {1, 2, 3}
  Rounds = 2
INVARIANTS Mutex Fifo Queue SignalledOnce Free
PROPERTIES Served
CHECK_DEADLOCK TRUE
