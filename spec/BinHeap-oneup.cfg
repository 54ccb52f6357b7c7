SPECIFICATION Spec
CONSTANTS Ids = {1,2,3,4} Keys = {0,1,2} Bug = "oneup"
INVARIANT Inv
PROPERTIES Refines Exact
CHECK_DEADLOCK FALSE
