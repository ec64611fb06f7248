SPECIFICATION Spec
CONSTANTS B = 7
          MaxDs = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
