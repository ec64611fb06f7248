SPECIFICATION Spec
CONSTANT MaxV = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
