SPECIFICATION Spec
CONSTANTS NB = 3 MaxN = 3 L = 2 MaxNet = 3 MaxOther = 2 MaxRestart = 1
INVARIANTS TypeOK Chain
PROPERTIES Forward Delivered
CHECK_DEADLOCK FALSE
