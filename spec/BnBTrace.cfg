SPECIFICATION Spec
CONSTANTS KeepFirst = FALSE
 LoseRoot = FALSE
INVARIANTS Covered Incumbent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
