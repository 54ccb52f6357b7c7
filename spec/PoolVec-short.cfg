SPECIFICATION Spec
CONSTANTS Cells = 8 Vals = {1,2} MaxObj = 3 BUG = "short"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
