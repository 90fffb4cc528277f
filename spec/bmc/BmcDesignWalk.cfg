SPECIFICATION DSpec
CONSTANTS
  Topos = {1, 3}
  Sends = 6
  Claims = 4
  Admins = 3
INVARIANTS Links Once Quiet Coins
CHECK_DEADLOCK FALSE
