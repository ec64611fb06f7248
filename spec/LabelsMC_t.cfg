SPECIFICATION Spec
CONSTANTS Chars = {"a", "b"}
          MaxDepth = 3
          N = 2
INVARIANT Inv
INVARIANT Distinct
CHECK_DEADLOCK FALSE
