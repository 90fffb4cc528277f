SPECIFICATION Spec
CONSTANTS Kinds = {"btp2", "bridge", "eth", "hardhat"}
 Dirs = {"front", "reverse", "both"}
 Chans = {"flags", "env", "file", "save", "secret"}
 Bads = {"pw", "dir", "chain", "nokey", "noend", "code", "down"}
 MaxBlocks = 4
 MaxMsgs = 4
 Trouble = {}
INVARIANTS Emit
