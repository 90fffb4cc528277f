SPECIFICATION Spec
CONSTANTS Limit = 2
          MaxSize = 5
          NMsgs = 2
          MaxRefusals = 2
          Codes = {"c1", "c2"}
INVARIANTS Intact Small Complete Truthful
PROPERTY Told
CHECK_DEADLOCK FALSE
