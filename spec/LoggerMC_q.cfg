SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Msgs2 = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
