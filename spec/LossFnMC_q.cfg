SPECIFICATION Spec
CONSTANTS MaxX = 3
          MaxSlope = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
