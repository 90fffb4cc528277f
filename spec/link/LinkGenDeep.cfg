SPECIFICATION Spec
CONSTANTS MaxBlocks = 6 MaxSteps = 24 Faults = FALSE
CHECK_DEADLOCK FALSE
