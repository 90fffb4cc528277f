SPECIFICATION Spec
CONSTANTS D = 1
INVARIANTS Emit
