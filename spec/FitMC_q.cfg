CONSTANTS Values = {50, 120, 200, 300}
Size = 6
Most = 2
SPECIFICATION Spec
INVARIANTS TypeOK Solved Alone Plain Pulled
CHECK_DEADLOCK FALSE
