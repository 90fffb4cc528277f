SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
          MaxSteps = 8
          Kinds = {"btp2"}
          Faults = TRUE
CHECK_DEADLOCK FALSE
