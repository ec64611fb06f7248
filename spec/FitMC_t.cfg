CONSTANTS Values = {50, 90, 120, 200, 300, 330}
Size = 8
Most = 3
SPECIFICATION Spec
INVARIANTS TypeOK Solved Alone Plain Pulled
CHECK_DEADLOCK FALSE
