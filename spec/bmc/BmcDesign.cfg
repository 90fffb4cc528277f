SPECIFICATION DSpec
CONSTANTS
  Topos = {1, 3}
  Sends = 1
  Claims = 1
  Admins = 1
INVARIANTS Links Once Quiet Coins
CHECK_DEADLOCK FALSE
