SPECIFICATION Spec
CONSTANT Counts <- C1
INVARIANTS InOrder Behind Progress
CHECK_DEADLOCK FALSE
