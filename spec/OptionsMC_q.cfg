SPECIFICATION Spec
CONSTANTS MaxA = 2
 MaxSteps = 4
 Vals = {"1", "none"}
INVARIANT Inv
PROPERTY Local
CHECK_DEADLOCK FALSE
