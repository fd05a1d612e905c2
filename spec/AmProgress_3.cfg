SPECIFICATION Spec
CONSTANTS
  Pes = {1, 2, 3}
  Ops = 1
  Kinds = {"put", "fetch"}
INVARIANTS InOrder Complete FlagSound AckSound Clean
PROPERTIES Returns
CHECK_DEADLOCK TRUE
