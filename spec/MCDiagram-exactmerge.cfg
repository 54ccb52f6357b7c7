SPECIFICATION Spec
CONSTANTS K = 3 L = 3 W = 3 Numbers = {1,2,3,4,5,6} Strategies = {"exact","restricted","relaxed"} Widths = {1,2} Bug = "exactmerge"
INVARIANTS  Promise CutPromise BackPromise
CHECK_DEADLOCK FALSE
