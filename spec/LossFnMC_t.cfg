SPECIFICATION Spec
CONSTANTS MaxX = 6
          MaxSlope = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
