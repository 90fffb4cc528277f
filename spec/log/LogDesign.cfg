SPECIFICATION Spec
INVARIANTS OnlyMade Whole Severe Alone Raise
CHECK_DEADLOCK FALSE
