SPECIFICATION Spec
CONSTANTS Vals = {1,2} MaxRing = 4 Bug = "none"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
