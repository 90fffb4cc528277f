CONSTANTS
  MaxPut = 4
  MaxSave = 3
  Emitting = TRUE
  Use = {"base_dir", "log_writer.filename", "src.key_password", "dst.key_password", "src.key_secret", "dst.key_secret", "src.key_store"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
