SPECIFICATION Spec
CONSTANTS MaxMsgs = 3
          Kinds = {"ethbr"}
CHECK_DEADLOCK FALSE
