SPECIFICATION Spec
CONSTANTS Parts = {"", "btp", "0x1", "icon", "cx", "iconee", "c", "Ab", "a/b", "x.y"}
 Soup = {47, 46, 58, 97}
 N = 7
 Emitting = TRUE
INVARIANTS Emit
