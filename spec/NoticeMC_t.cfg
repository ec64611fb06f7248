SPECIFICATION Spec
CONSTANTS MaxSteps = 5
 Trace = TRUE
INVARIANTS Inv Emitting
PROPERTY NeverForNewest
CHECK_DEADLOCK FALSE
