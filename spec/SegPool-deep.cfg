SPECIFICATION Spec
CONSTANTS Seg = 4 Sizes = {1,3,4,6} MaxSegs = 5 MaxLive = 6 MaxMarks = 3 Bug = "none"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
