--------------------------- MODULE QuantityJudge ---------------------------
(* Recorded damage samples against Quantity. Quantities are recorded as     *)
(* multiples of a B-th of the component quantity, times SCALE, rounded.     *)
EXTENDS Quantity, Judging

SCALE == 100000
NANV == -999999999
ZEROQ == -888888888   \* recorded when the component quantity is zero and so is the damaged one

VARIABLES k, g, bad
C == Cases[k]

Pick(cols, s) == cols[CHOOSE i \in DOMAIN cols : cols[i].ds = s]

GroupBad(inp, grp) ==
  LET rows == grp.rows
      st == States(rows, inp.listall = 1, grp.maxds)
      have == {grp.cols[i].ds : i \in DOMAIN grp.cols}
      val(s, r) == Pick(grp.cols, s).v[r]
      good(s, r) ==
        IF Cleared(rows[r]) THEN val(s, r) = NANV \/ (s \notin Realized(rows) /\ val(s, r) \in {0, ZEROQ})
        ELSE \/ val(s, r) = ZEROQ
             \/ Abs(val(s, r) - SCALE * Expected(rows[r], s)) <= 2
  IN IF Len(grp.cols) # Cardinality(have) THEN {"duplicate-state"}
     ELSE Clause("states-listed", have = st)
          \cup (IF have = st
                THEN Clause("quantity", \A s \in st : \A r \in DOMAIN rows : good(s, r))
                     \cup Clause("conservation",
                            \A r \in DOMAIN rows :
                               \/ Cleared(rows[r])
                               \/ \E s \in st : val(s, r) = ZEROQ
                               \/ LET RECURSIVE tot(_)
                                      tot(S) == IF S = {} THEN 0
                                                ELSE LET s == CHOOSE x \in S : TRUE
                                                     IN val(s, r) + tot(S \ {s})
                                  IN Abs(tot(st) - SCALE * Len(rows[r])) <= 2 * Cardinality(st))
                ELSE {})

JInit == k \in DOMAIN Cases /\ g = 1 /\ bad = {}
StepGroup == /\ g <= Len(C.obs.groups)
             /\ bad' = bad \cup GroupBad(C.in, C.obs.groups[g])
             /\ g' = g + 1 /\ k' = k
Finish == /\ g = Len(C.obs.groups) + 1
          /\ Report(C.id, bad \cup Clause("groups-present", C.obs.extra = 0 /\ C.obs.missing = 0))
          /\ g' = g + 1 /\ UNCHANGED <<k, bad>>
JNext == StepGroup \/ Finish
=============================================================================
