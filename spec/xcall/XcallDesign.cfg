SPECIFICATION Spec
CONSTANTS MaxSend = 2
 Actions = {"ok", "rev", "send"}
INVARIANTS Once NotBoth AtRest Coins
CHECK_DEADLOCK FALSE
