SPECIFICATION Spec
CONSTANTS F = {1, 2, 3, 6}
 MaxV = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
