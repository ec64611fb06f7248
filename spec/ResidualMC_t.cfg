INIT Init
NEXT Next
CONSTANTS MaxD = 120
 Yields = {2, 5, 17, 40}
 Runs = 3
INVARIANTS Sane Monotone PerDirection Keeps
PROPERTIES CallerKept
CHECK_DEADLOCK FALSE
