SPECIFICATION Spec
CONSTANTS Nums = {1, 2, 3, 10}
          Caps = {1, 2, 3}
          Demands = {1, 2, 3, 4}
INVARIANT Inv
CHECK_DEADLOCK FALSE
