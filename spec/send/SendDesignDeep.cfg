SPECIFICATION Spec
CONSTANTS Limit = 2
          MaxSize = 7
          NMsgs = 3
          MaxRefusals = 2
          Codes = {"c1"}
INVARIANTS Intact Small Complete Truthful
PROPERTY Told
CHECK_DEADLOCK FALSE
