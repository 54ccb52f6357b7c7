SPECIFICATION Spec
CONSTANTS Cells = 6 Vals = {1,2} MaxObj = 2 BUG = "none"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
