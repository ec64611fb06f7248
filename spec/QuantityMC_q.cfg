SPECIFICATION Spec
CONSTANTS B = 5
          MaxDs = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
