SPECIFICATION Spec
CONSTANTS Kinds = {"btp2", "bridge", "eth", "hardhat"}
 Dirs = {"front", "reverse", "both"}
 Chans = {"flags", "env", "file", "save", "secret"}
 Bads = {""}
 MaxBlocks = 4
 MaxMsgs = 4
 Trouble = {"kill", "dup", "rej"}
INVARIANTS Emit
