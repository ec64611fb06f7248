SPECIFICATION Spec
CONSTANTS MaxV = 2
          Scales = 2
          R = 1
INVARIANT Inv
PROPERTY Pure
CHECK_DEADLOCK FALSE
