SPECIFICATION Spec
CONSTANTS MaxA = 2
 MaxSteps = 5
 Vals = {"1", "none"}
INVARIANT Inv
PROPERTY Local
CHECK_DEADLOCK FALSE
