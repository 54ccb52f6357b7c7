SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4} Vals = {1,2} M = 2 MaxMagic = 3 Bug = "dup"
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
