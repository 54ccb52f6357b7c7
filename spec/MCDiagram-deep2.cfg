SPECIFICATION Spec
CONSTANTS K = 4 L = 3 W = 3 Numbers = {1,2,3} Strategies = {"exact","restricted","relaxed"} Widths = {1,2,3} Bug = "none"
INVARIANTS RulesOK Promise CutPromise BackPromise ExactReal
CHECK_DEADLOCK FALSE
