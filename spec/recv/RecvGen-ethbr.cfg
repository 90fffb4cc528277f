SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
          MaxSteps = 8
          Kinds = {"ethbr"}
          Faults = FALSE
CHECK_DEADLOCK FALSE
