SPECIFICATION Spec
CONSTANTS Wanted = {"A", "B"}
          KeySet = {"A", "B", "Z"}
          MaxRows = 4
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
