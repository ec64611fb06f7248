INIT Init
NEXT Next
CONSTANTS MaxD = 30
 Yields = {2, 5}
 Runs = 2
INVARIANTS Sane Monotone PerDirection Keeps
PROPERTIES CallerKept
CHECK_DEADLOCK FALSE
