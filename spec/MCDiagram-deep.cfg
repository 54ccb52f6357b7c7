SPECIFICATION Spec
CONSTANTS K = 4 L = 2 W = 3 Numbers = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30} Strategies = {"exact","restricted","relaxed"} Widths = {1,2,3} Bug = "none"
INVARIANTS RulesOK Promise CutPromise BackPromise ExactReal
CHECK_DEADLOCK FALSE
