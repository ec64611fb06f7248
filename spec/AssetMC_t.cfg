SPECIFICATION Spec
CONSTANTS N = 2
          MaxRows = 2
          Stories = {0, 1, 2, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
