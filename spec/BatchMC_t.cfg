SPECIFICATION Spec
CONSTANTS G = 5
 MaxBlocks = 4
 MaxSize = 7
INVARIANT Inv
PROPERTY Finishes
CHECK_DEADLOCK FALSE
