--------------------------- MODULE CapacityJudge ---------------------------
(* Recorded damage states under adjusted capacities. in.groups:             *)
(* [cmp, loc, dir, ls, mode, dem, blocks]; in.expect = 1 when the           *)
(* specification is malformed and the call has to fail.                     *)
EXTENDS Capacity, Judging

VARIABLES k, g, bad
C == Cases[k]
CapIn(ls, n) == ls[CHOOSE i \in DOMAIN ls : ls[i].num = n].cap

AllowedIn(inp, grp, r) ==
  LET f(n) == Adjusted(inp.spec, grp, n, CapIn(grp.ls, n), r)
      ns == LsNums(grp.ls)
  IN IF grp.mode = "det"
     THEN Allowed(grp.ls, {n \in ns : Below(f(n), grp.dem[r])})
     ELSE LET must == {n \in ns : SurelyBelow(f(n), grp.dem[r])}
              may == {n \in ns : MaybeBelow(f(n), grp.dem[r])}
          IN UNION {Allowed(grp.ls, E) : E \in {X \in SUBSET may : must \subseteq X}}

GroupBad(inp, grp, rows) ==
  IF Len(rows) # Len(grp.dem) \/ (\E r \in DOMAIN rows : Len(rows[r]) # grp.blocks) THEN {"group-shape"}
  ELSE IF grp.mode = "count"
  THEN \* one limit state, constant demand: the number of exceedances is that of its distribution
       LET cnt == Cardinality({r \in DOMAIN rows : rows[r][1] >= 1})
       IN Clause("distribution", Abs(cnt * 1000 - grp.expect1000) <= 1001)
  ELSE Clause("adjusted-capacity",
              \A r \in DOMAIN rows : \A b \in DOMAIN rows[r] : rows[r][b] \in AllowedIn(inp, grp, r))

JInit == k \in DOMAIN Cases /\ g = 1 /\ bad = {}
Err == Has(C.obs, "exc")
StepGroup == /\ ~Err /\ g <= Len(C.in.groups) /\ C.in.expect = 0
             /\ bad' = bad \cup GroupBad(C.in, C.in.groups[g], C.obs.ds[g])
             /\ g' = g + 1 /\ k' = k
Finish == /\ g <= Len(C.in.groups) + 1
          /\ (Err \/ C.in.expect = 1) => g = 1
          /\ (~Err /\ C.in.expect = 0) => g = Len(C.in.groups) + 1
          /\ Report(C.id, bad \cup Clause("unexpected-error", Err => C.in.expect = 1)
                              \cup Clause("malformed-accepted", C.in.expect = 1 => Err))
          /\ g' = Len(C.in.groups) + 2 /\ UNCHANGED <<k, bad>>
JNext == StepGroup \/ Finish
=============================================================================
