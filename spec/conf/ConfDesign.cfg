CONSTANTS
  MaxPut = 2
  MaxSave = 2
  Emitting = FALSE
  Use = {"src.address", "log_writer.filename", "src.key_store", "src.key_password", "src.key_secret"}
SPECIFICATION Spec
INVARIANT Safe
PROPERTY Kept
CHECK_DEADLOCK FALSE
