SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
          MaxSteps = 8
          Kinds = {"bridge"}
          Faults = TRUE
CHECK_DEADLOCK FALSE
