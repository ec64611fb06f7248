------------------------------ MODULE Quantity ------------------------------
(* Damaged quantities of one performance group (property C02).              *)
(* row = damage states of its B blocks in one realization (-1 = cleared).   *)
EXTENDS Integers, Sequences, FiniteSets

BlocksIn(row, s) == Cardinality({b \in DOMAIN row : row[b] = s})
Cleared(row) == \E b \in DOMAIN row : row[b] = -1
(* in units of one B-th of the component quantity *)
Expected(row, s) == BlocksIn(row, s)
Realized(rows) == UNION {{rows[r][b] : b \in DOMAIN rows[r]} : r \in DOMAIN rows} \ {-1}
States(rows, listAll, maxds) ==
  IF listAll /\ Realized(rows) # {} THEN 0..maxds ELSE Realized(rows)
=============================================================================
