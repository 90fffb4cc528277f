SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS RoundTrip Prefix Suffix
