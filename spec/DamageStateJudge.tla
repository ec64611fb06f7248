-------------------------- MODULE DamageStateJudge --------------------------
(* Recorded damage states against DamageState. A case has groups            *)
(* [lss, scatter, ls, dem]: ls = sequence of [num, cap, w], dem = demand    *)
(* per realization; obs.ds = per group the rows of block states.            *)
EXTENDS DamageState, Judging

VARIABLES k, g, bad
vars == <<k, g, bad>>

CapIn(ls, n) == ls[CHOOSE i \in DOMAIN ls : ls[i].num = n].cap

(* With scattered capacities of one family and spread, all capacities of a  *)
(* block sit at one probability level: the exceeded limit states are those  *)
(* whose median lies below some level.                                      *)
LevelSets(ls) == {{n \in LsNums(ls) : CapIn(ls, n) < t} :
                     t \in {CapIn(ls, n) : n \in LsNums(ls)}} \cup {LsNums(ls)}
AllowedIn(grp, r) ==
  IF grp.scatter = 1 THEN UNION {Allowed(grp.ls, E) : E \in LevelSets(grp.ls)}
  ELSE Allowed(grp.ls, Exceeded(grp.ls, LAMBDA n : CapIn(grp.ls, n), grp.dem[r]))

GroupBad(grp, rows) ==
  IF Len(rows) # Len(grp.dem) \/ (\E r \in DOMAIN rows : Len(rows[r]) # grp.blocks)
  THEN {"group-shape"}
  ELSE LET ok(r, b) == rows[r][b] \in AllowedIn(grp, r)
       IN Clause("damage-state", \A r \in DOMAIN rows : \A b \in DOMAIN rows[r] : ok(r, b))

JInit == k \in DOMAIN Cases /\ g = 1 /\ bad = {}
C == Cases[k]
StepGroup == /\ g <= Len(C.in.groups)
             /\ bad' = bad \cup GroupBad(C.in.groups[g], C.obs.ds[g])
             /\ g' = g + 1 /\ k' = k
Finish == /\ g = Len(C.in.groups) + 1
          /\ Report(C.id, bad \cup Clause("group-count", C.obs.ncols = C.in.ncols))
          /\ g' = g + 1 /\ UNCHANGED <<k, bad>>
JNext == StepGroup \/ Finish
=============================================================================
