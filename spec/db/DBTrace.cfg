SPECIFICATION Spec
CONSTANTS Buckets = {"", "S", "SS"}
 Keys = {"kx", "ky"}
INVARIANTS Report
