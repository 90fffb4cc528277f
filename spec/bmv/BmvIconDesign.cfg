SPECIFICATION Spec
CONSTANTS
  Bad = {4}
INVARIANTS Real InOrder Follows Go
CHECK_DEADLOCK FALSE
