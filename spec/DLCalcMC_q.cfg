SPECIFICATION Spec
CONSTANTS Drifts = {0, 20, 50}
 Residuals = {0, 30}
 Accelerations = {0, 60}
 Trace = TRUE
INVARIANTS Invs Emitting
CHECK_DEADLOCK FALSE
