SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Trace = TRUE
INVARIANTS Inv Emitting
PROPERTY NeverForNewest
CHECK_DEADLOCK FALSE
