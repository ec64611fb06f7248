SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Msgs2 = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
