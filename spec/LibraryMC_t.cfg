SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Edits = TRUE
 Trace = FALSE
INVARIANTS Inv Emitting
CHECK_DEADLOCK FALSE
