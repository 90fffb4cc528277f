SPECIFICATION Spec
CONSTANT Blocks <- Chain1
INVARIANT Prefix Position Validators Vouched
PROPERTY OneByOne
CHECK_DEADLOCK FALSE
