SPECIFICATION Spec
CONSTANTS Seg = 4 Sizes = {1,3,4,6} MaxSegs = 4 MaxLive = 4 MaxMarks = 2 Bug = "notop"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
