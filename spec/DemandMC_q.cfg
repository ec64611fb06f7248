SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
          MaxLoc = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
