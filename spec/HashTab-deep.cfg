SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4,5} Vals = {1,2} M = 2 MaxMagic = 4 Bug = "none"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
