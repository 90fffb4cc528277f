SPECIFICATION Spec
CONSTANTS MaxBlocks = 4 MaxSteps = 10 Faults = FALSE
CHECK_DEADLOCK FALSE
