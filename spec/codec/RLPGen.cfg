SPECIFICATION Spec
CONSTANTS D = 4
INVARIANTS Emit
