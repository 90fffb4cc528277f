SPECIFICATION Spec
CONSTANT D = 22
INVARIANT Emit
