SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
          MaxSteps = 8
          Kinds = {"btp2"}
          Faults = FALSE
CHECK_DEADLOCK FALSE
