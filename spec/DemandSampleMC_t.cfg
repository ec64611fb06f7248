INIT Init
NEXT Next
CONSTANTS Model = {"A", "B", "C"}
 New = {"A", "B", "D", "E"}
 MaxTo = 2
 Ops = 2
INVARIANTS SameTable Origins
CHECK_DEADLOCK FALSE
