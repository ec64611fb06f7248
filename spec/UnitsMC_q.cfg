SPECIFICATION Spec
CONSTANTS F = {1, 2, 3}
 MaxV = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
