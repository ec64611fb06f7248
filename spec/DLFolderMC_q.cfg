SPECIFICATION Spec
CONSTANTS MaxRuns = 3
 Trace = TRUE
INVARIANTS Invs Emitting
CHECK_DEADLOCK FALSE
