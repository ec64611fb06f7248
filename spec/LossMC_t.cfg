SPECIFICATION Spec
CONSTANTS MaxV = 1
          Scales = 3
          R = 2
INVARIANT Inv
PROPERTY Pure
CHECK_DEADLOCK FALSE
