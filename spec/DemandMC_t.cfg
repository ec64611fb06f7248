SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
          MaxLoc = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
