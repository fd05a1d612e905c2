SPECIFICATION Spec
CONSTANTS
  PageSize = 4096
  ConfLevel = 2
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
