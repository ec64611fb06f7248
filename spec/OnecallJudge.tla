---------------------------- MODULE OnecallJudge ----------------------------
(* in.calls[i]: the arguments of the i-th round of calls on one object,     *)
(* [x, y, z]; obs.calls[i]: demands [type, loc, dir, v] in thousandths,      *)
(* ds [cmp, loc, dir, v], losses [dv, cmp, loc, dir, v] (summed over ds),    *)
(* agg [name, v], flags [dv, v], same (caller's objects unchanged), error.  *)
EXTENDS Onecall, Judging

VARIABLES k, i, bad, dam, phase
C == Cases[k]
X == C.in.calls[i].x
Y == C.in.calls[i].y
Z == C.in.calls[i].z
O == C.obs.calls[i]

DemandBad ==
  LET want == Demands(X) got == O.demands
  IN Clause("demand-columns", {<<got[c].type, got[c].loc, got[c].dir>> : c \in DOMAIN got} = {<<want[c].type, want[c].loc, want[c].dir>> : c \in DOMAIN want})
     \cup Clause("demand-columns-once", Len(got) = Len(want))
     \cup Clause("demand-values",
            \A c \in DOMAIN got : \A w \in DOMAIN want :
              (got[c].type = want[w].type /\ got[c].loc = want[w].loc /\ got[c].dir = want[w].dir) =>
                /\ Len(got[c].v) = X.n
                /\ \A r \in 1..X.n : IF want[w].type = "RID" /\ X.rid = "plastic"
                                     THEN got[c].v[r] > 0 /\ got[c].v[r] <= want[w].v[r]
                                     ELSE got[c].v[r] = want[w].v[r])
GroupKeys == LET gs == GroupsOf(X) IN {<<gs[g].cmp, gs[g].loc, gs[g].dir>> : g \in DOMAIN gs}
DamageBad ==
  LET gs == GroupsOf(X)
  IN Clause("groups", {<<O.ds[c].cmp, O.ds[c].loc, O.ds[c].dir>> : c \in DOMAIN O.ds} = GroupKeys /\ Len(O.ds) = Len(gs))
     \cup Clause("damage-states",
            \A c \in DOMAIN O.ds : \A g \in DOMAIN gs :
              (O.ds[c].cmp = gs[g].cmp /\ O.ds[c].loc = gs[g].loc /\ O.ds[c].dir = gs[g].dir) =>
                O.ds[c].v = [r \in 1..X.n |-> dam[r][g]])
LossBad(ls) ==
  LET got == O.losses
      K(l) == <<l.dv, l.cmp, l.loc, l.dir>>
      at == {K(got[c]) : c \in DOMAIN got}
  IN Clause("loss-columns", at \subseteq {K(ls[c]) : c \in DOMAIN ls} /\ Cardinality(at) = Len(got))
     \cup Clause("losses",
            \A w \in DOMAIN ls :
              IF K(ls[w]) \in at THEN \A c \in DOMAIN got : K(got[c]) = K(ls[w]) => got[c].v = ls[w].v
              ELSE \A r \in 1..X.n : ls[w].v[r] = 0)
Names == UNION {CASE d = "Cost" -> {"repair_cost"} [] d = "Carbon" -> {"repair_carbon"}
                  [] OTHER -> {"repair_time-sequential", "repair_time-parallel"} : d \in {Y.dvs[j] : j \in DOMAIN Y.dvs}}
AggBad(ls) ==
  LET a == O.agg
      got == {a[j].name : j \in DOMAIN a}
      E == Exclusive(ls)
      none == \A c \in DOMAIN ls : \A r \in 1..X.n : ls[c].v[r] = 0
  IN Clause("agg-columns", got \subseteq Names /\ Cardinality(got) = Len(a))
     \cup (IF none /\ Len(Z) > 0 THEN {} ELSE
           Clause("aggregate", \A nm \in Names :
              IF nm \in got THEN \A j \in DOMAIN a : a[j].name = nm => (none \/ Len(a[j].v) = X.n) /\ \A r \in DOMAIN a[j].v : a[j].v[r] = Aggregate(E, Z, nm, r)
              ELSE \A r \in 1..X.n : Aggregate(E, Z, nm, r) = 0))

JInit == k \in DOMAIN Cases /\ i = 1 /\ bad = {} /\ dam = <<>> /\ phase = "damage"
Failed == Has(C.obs, "exc")
Derive == /\ phase = "damage" /\ ~Failed /\ i <= Len(C.in.calls)
          /\ dam' = Damage(X) /\ phase' = "judge" /\ UNCHANGED <<k, i, bad>>
Judge == /\ phase = "judge"
         /\ bad' = bad \cup DemandBad \cup DamageBad \cup Clause("caller", O.same = 1)
                   \cup (IF MapValid(Y)
                         THEN IF O.error # "" THEN {"loss-refused"}
                              ELSE LET ls == Losses(X, Y, dam) IN LossBad(ls) \cup AggBad(ls)
                         ELSE Clause("no-map-accepted", O.error # ""))
         /\ i' = i + 1 /\ phase' = "damage" /\ UNCHANGED <<k, dam>>
Finish == /\ phase = "damage" /\ (Failed \/ i > Len(C.in.calls))
          /\ Report(C.id, bad \cup Clause("unexpected-error", ~Failed))
          /\ phase' = "done" /\ UNCHANGED <<k, i, bad, dam>>
JNext == Derive \/ Judge \/ Finish
=============================================================================
