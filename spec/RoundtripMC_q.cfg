SPECIFICATION Spec
CONSTANTS N = 1
          MaxSteps = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
