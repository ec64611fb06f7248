SPECIFICATION Spec
CONSTANTS Wanted = {"A", "B"}
          KeySet = {"A", "B", "Z"}
          MaxRows = 5
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
