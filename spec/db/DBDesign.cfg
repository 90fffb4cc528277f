SPECIFICATION Spec
CONSTANTS Buckets = {"A", "B"}
 Keys = {"x"}
 Vals = {"v1", "v2"}
 Layers = 2
 D = 6
INVARIANTS ViewStable RealClean
VIEW Hide
