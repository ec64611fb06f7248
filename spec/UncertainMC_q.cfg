CONSTANTS N = 5
Places = {1, 50, 99}
Demands = {0, 700, 1400, 2000, 2300, 2900, 3600}
SPECIFICATION Spec
INVARIANTS InStrata Known Monotone
CHECK_DEADLOCK FALSE
