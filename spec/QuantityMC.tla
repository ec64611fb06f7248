----------------------------- MODULE QuantityMC -----------------------------
(* The accumulation of quantities, block by block, as a machine: each block *)
(* adds one part to the state it is in or marks the realization cleared.    *)
EXTENDS Quantity, TLC
CONSTANTS B, MaxDs

VARIABLES row, next, acc, clr
vars == <<row, next, acc, clr>>
Rows == UNION {[1..b -> 0..MaxDs] \cup {[x \in 1..b |-> -1]} : b \in 1..B}
Init == row \in Rows /\ next = 1 /\ acc = [s \in 0..MaxDs |-> 0] /\ clr = FALSE
Add == /\ next <= Len(row) /\ row[next] >= 0
       /\ acc' = [acc EXCEPT ![row[next]] = @ + 1] /\ next' = next + 1 /\ UNCHANGED <<row, clr>>
Clear == /\ next <= Len(row) /\ row[next] = -1
         /\ clr' = TRUE /\ next' = next + 1 /\ UNCHANGED <<row, acc>>
Next == Add \/ Clear
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN f[s] + Total(f, S \ {s})
Done == next > Len(row)
Conserved == Done => (IF clr THEN Total(acc, DOMAIN acc) = 0 ELSE Total(acc, DOMAIN acc) = Len(row))
Agrees == Done => \A s \in 0..MaxDs : acc[s] = (IF clr THEN 0 ELSE Expected(row, s))
ClearedAll == Done => (clr <=> Cleared(row))
NonNegative == \A s \in DOMAIN acc : acc[s] >= 0
Inv == Conserved /\ Agrees /\ NonNegative /\ ClearedAll
=============================================================================
