SPECIFICATION Spec
CONSTANTS
  Pes = {1, 2}
  Ops = 2
  Kinds = {"post", "put", "fetch"}
INVARIANTS InOrder Complete FlagSound AckSound Clean
PROPERTIES Returns
CHECK_DEADLOCK TRUE
