SPECIFICATION Spec
CONSTANTS KeepFirst = FALSE LoseRoot = TRUE K = 2 L = 3 W = 2 Numbers = {1,2,3,4,5,6}
INVARIANTS Covered Done OpenReal Incumbent
PROPERTIES Optimal Refines
CHECK_DEADLOCK FALSE
