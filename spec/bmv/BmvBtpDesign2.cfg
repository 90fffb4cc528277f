SPECIFICATION Spec
CONSTANT Blocks <- Chain2
INVARIANT Prefix Position Validators Vouched
PROPERTY OneByOne
CHECK_DEADLOCK FALSE
