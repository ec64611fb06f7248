SPECIFICATION Spec
CONSTANTS Nums = {1, 2, 4}
          Caps = {1, 2}
          Demands = {1, 2, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
