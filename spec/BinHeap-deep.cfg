SPECIFICATION Spec
CONSTANTS Ids = {1,2,3,4,5,6} Keys = {0,1} Bug = "none"
INVARIANT Inv
PROPERTIES Refines Exact
CHECK_DEADLOCK FALSE
