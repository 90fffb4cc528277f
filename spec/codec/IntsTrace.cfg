SPECIFICATION Spec
INVARIANTS Report
