SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
          MaxSteps = 8
          Kinds = {"bridge"}
          Faults = FALSE
CHECK_DEADLOCK FALSE
