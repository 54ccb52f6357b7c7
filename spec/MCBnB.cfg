SPECIFICATION Spec
CONSTANTS KeepFirst = FALSE LoseRoot = FALSE K = 2 L = 3 W = 2 Numbers = {1,2,3}
INVARIANTS Covered Done OpenReal Incumbent
PROPERTIES Optimal Refines
CHECK_DEADLOCK FALSE
