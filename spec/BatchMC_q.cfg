SPECIFICATION Spec
CONSTANTS G = 4
 MaxBlocks = 3
 MaxSize = 4
INVARIANT Inv
PROPERTY Finishes
CHECK_DEADLOCK FALSE
