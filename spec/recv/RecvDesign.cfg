SPECIFICATION Spec
CONSTANTS NB = 3 MaxN = 2 L = 2 All = TRUE
INVARIANTS TypeOK NoHole
PROPERTIES Walk Delivered
CHECK_DEADLOCK FALSE
