SPECIFICATION Spec
CONSTANTS Dirs = {f, r}
 Enabled = {f, r}
 Max = 2
 Kills = 1
INVARIANTS Once Only
PROPERTIES Delivered
