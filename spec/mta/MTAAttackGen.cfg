SPECIFICATION Spec
CONSTANTS MaxLen = 6
 AtkLen = 6
INVARIANTS Emit
