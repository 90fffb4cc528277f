SPECIFICATION Spec
CONSTANTS MaxBlocks = 3 MaxSteps = 5 Faults = TRUE
CHECK_DEADLOCK FALSE
