SPECIFICATION Spec
CONSTANTS N = 1
          MaxSteps = 7
INVARIANT Inv
CHECK_DEADLOCK FALSE
