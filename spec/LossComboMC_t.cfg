SPECIFICATION Spec
CONSTANT MaxV = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
