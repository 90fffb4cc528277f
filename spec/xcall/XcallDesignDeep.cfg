SPECIFICATION Spec
CONSTANTS MaxSend = 3
 Actions = {"ok", "rev"}
INVARIANTS Once NotBoth AtRest Coins
CHECK_DEADLOCK FALSE
