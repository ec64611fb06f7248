SPECIFICATION Spec
CONSTANTS Buildings = {1, 2, 3}
 Occs = {1, 2}
 Sizes = {1, 2}
 Workers = 2
 Trace = TRUE
INVARIANTS Inv Emitting
CHECK_DEADLOCK FALSE
