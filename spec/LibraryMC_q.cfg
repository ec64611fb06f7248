SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Edits = TRUE
 Trace = TRUE
INVARIANTS Inv Emitting
CHECK_DEADLOCK FALSE
