SPECIFICATION DSpec
CONSTANTS
  Topos = {1, 3}
  Sends = 2
  Claims = 1
  Admins = 0
INVARIANTS Links Once Quiet Coins
CHECK_DEADLOCK FALSE
