------------------------------ MODULE LabelsMC ------------------------------
(* A table whose labels are converted back and forth; data stays in place.   *)
EXTENDS Labels, TLC
CONSTANTS Chars, MaxDepth, N
Parts == {<<>>} \cup {<<c>> : c \in Chars} \cup {<<c, d>> : c, d \in Chars}
VARIABLES depth, labels, form, orig, step
vars == <<depth, labels, form, orig, step>>
Init == /\ depth \in 2..MaxDepth /\ orig \in [1..N -> [1..depth -> Parts]]
        /\ labels = orig /\ form = "hierarchy" /\ step = 0
Compact == step < 3 /\ form = "hierarchy" /\ form' = "compact" /\ labels' = ToCompact(labels) /\ step' = step + 1 /\ UNCHANGED <<depth, orig>>
Expand == step < 3 /\ form = "compact" /\ form' = "hierarchy" /\ labels' = ToHierarchy(labels) /\ step' = step + 1 /\ UNCHANGED <<depth, orig>>
Next == Compact \/ Expand
Spec == Init /\ [][Next]_vars
Inv == form = "hierarchy" => labels = orig
Distinct == \A i, j \in 1..N : orig[i] # orig[j] => labels[i] # labels[j]
=============================================================================
