SPECIFICATION Spec
CONSTANTS MaxRules = 2
          Dump = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
