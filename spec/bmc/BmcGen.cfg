SPECIFICATION GSpec
INVARIANT Say
ACTION_CONSTRAINT Stop
CHECK_DEADLOCK FALSE
