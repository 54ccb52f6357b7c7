SPECIFICATION Spec
CONSTANTS Vals = {1} MaxRing = 8 Bug = "none"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
