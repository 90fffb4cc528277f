SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS RoundTrip Prefix Suffix
