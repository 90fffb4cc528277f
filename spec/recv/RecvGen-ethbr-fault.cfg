SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
          MaxSteps = 8
          Kinds = {"ethbr"}
          Faults = TRUE
CHECK_DEADLOCK FALSE
