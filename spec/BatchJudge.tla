----------------------------- MODULE BatchJudge -----------------------------
(* The same model calculated in several ways: obs.runs[v] = [exc] or         *)
(* [groups: seq of [cmp, loc, dir, uid, ds, loss]]; in.variants[v] names the *)
(* components that are part of variant v. in.want: expected damage (in       *)
(* thousandths of the quantity) per group when no damage process acts.       *)
EXTENDS DamageState, Judging
VARIABLES k, v, bad
C == Cases[k]
I == C.in
Key(g) == <<g.cmp, g.loc, g.dir>>
Runs == C.obs.runs
BaseRun == Runs[1]
In(var, g) == \E i \in DOMAIN var.cmps : var.cmps[i] = g.cmp
Comp(c) == I.comps[CHOOSE i \in DOMAIN I.comps : I.comps[i].cmp = c]
Demand(g, r) == LET cs == {c \in DOMAIN I.demand : I.demand[c].loc = g.loc /\ (Comp(g.cmp).free = 1 \/ I.demand[c].dir = g.dir)}
                IN Comp(g.cmp).expr[1] * MaxSet({I.demand[c].v[r] : c \in cs}) + Comp(g.cmp).expr[2]
State(g, r) == LET lss == Comp(g.cmp).lss
                   ex == Exceeded([i \in DOMAIN lss |-> [num |-> i, w |-> <<1>>]], LAMBDA n : lss[n], Demand(g, r))
               IN IF ex = {} THEN 0 ELSE Highest(ex)
(* thousandths *)
Quantity(g, t, r) == IF State(g, r) = t THEN 1000 * g.qty ELSE 0
DsOk(g, o) == \A i \in DOMAIN o.ds : \A r \in 1..I.n : Abs(o.ds[i].v[r] - Quantity(g, o.ds[i].ds, r)) <= 1
AllStates(g, o) == \A r \in 1..I.n : \E i \in DOMAIN o.ds : o.ds[i].ds = State(g, r)
RunBad(var, run) ==
  IF Has(run, "exc") THEN {"unexpected-error"}
  ELSE LET want == {i \in DOMAIN I.groups : In(var, I.groups[i])}
           seen(g) == {o \in DOMAIN run.groups : Key(run.groups[o]) = Key(g)}
       IN Clause("evaluated-once", \A i \in want : \/ Cardinality(seen(I.groups[i])) = 1
                                                        \* a damage process may clear a group completely
                                                        \/ (I.rules = 1 /\ seen(I.groups[i]) = {} /\ ~Has(BaseRun, "exc")
                                                            /\ \A b \in DOMAIN BaseRun.groups : Key(BaseRun.groups[b]) # Key(I.groups[i])))
          \cup Clause("only-own-groups", \A o \in DOMAIN run.groups : \E i \in want : Key(I.groups[i]) = Key(run.groups[o]))
          \cup Clause("damage", I.rules = 0 => \A i \in want : Comp(I.groups[i].cmp).kind = "ds" => \A o \in seen(I.groups[i]) :
                 DsOk(I.groups[i], run.groups[o]) /\ AllStates(I.groups[i], run.groups[o]))
          \cup Clause("unaffected", ~Has(BaseRun, "exc") => \A o \in DOMAIN run.groups : \A b \in DOMAIN BaseRun.groups :
                 Key(run.groups[o]) = Key(BaseRun.groups[b]) => run.groups[o] = BaseRun.groups[b])
JInit == k \in DOMAIN Cases /\ v = 1 /\ bad = {}
Step == /\ v <= Len(Runs) /\ bad' = bad \cup RunBad(I.variants[v], Runs[v]) /\ v' = v + 1 /\ k' = k
Finish == /\ v = Len(Runs) + 1 /\ Report(C.id, bad) /\ v' = 1000 /\ UNCHANGED <<k, bad>>
JNext == v < 1000 /\ (Step \/ Finish)
=============================================================================
