SPECIFICATION Spec
CONSTANTS NB = 3 MaxN = 2 L = 2 MaxNet = 3 MaxOther = 1 MaxRestart = 1
INVARIANTS TypeOK Chain
PROPERTIES Forward Delivered
CHECK_DEADLOCK FALSE
