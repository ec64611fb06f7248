SPECIFICATION Spec
CONSTANTS Drifts = {0, 10, 20, 30, 40, 50}
 Residuals = {0, 30}
 Accelerations = {0, 60}
 Trace = TRUE
INVARIANTS Invs Emitting
CHECK_DEADLOCK FALSE
