SPECIFICATION Spec
CONSTANT D = 12
INVARIANT Emit
