SPECIFICATION Spec
CONSTANTS KeepFirst = FALSE LoseRoot = FALSE K = 3 L = 2 W = 2 Numbers = {1,2,3,4}
INVARIANTS Covered Done OpenReal Incumbent
PROPERTIES Optimal Refines
CHECK_DEADLOCK FALSE
