SPECIFICATION Spec
CONSTANTS N = 1
          MaxRows = 2
          Stories = {0, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
