SPECIFICATION Spec
CONSTANTS NB = 4 MaxN = 3 L = 2 All = TRUE
INVARIANTS TypeOK NoHole
PROPERTIES Walk Delivered
CHECK_DEADLOCK FALSE
