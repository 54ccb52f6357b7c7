SPECIFICATION Spec
CONSTANTS KeepFirst = TRUE LoseRoot = FALSE K = 3 L = 2 W = 2 Numbers = {2}
INVARIANTS Covered Done OpenReal Incumbent
PROPERTIES Optimal Refines
CHECK_DEADLOCK FALSE
