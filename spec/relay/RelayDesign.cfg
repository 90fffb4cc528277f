SPECIFICATION Spec
CONSTANTS Dirs = {f, r}
 Enabled = {f}
 Max = 3
 Kills = 2
INVARIANTS Once Only
PROPERTIES Delivered
