SPECIFICATION Spec
CONSTANTS MaxMsgs = 3
          Kinds = {"icon"}
CHECK_DEADLOCK FALSE
