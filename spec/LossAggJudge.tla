---------------------------- MODULE LossAggJudge ----------------------------
(* Recorded aggregation (C09), replacement (C10) and scaling (C12).         *)
(* in.cols: [dv, loss, dmg, ds, loc, dir, uid, v] whole losses as given;     *)
(* in.rules: scaling rules in eighths, applied in order (compounding);      *)
(* in.thr: [dv, ratio] in quarters, -1 for no threshold; obs.rep: [dv, v]    *)
(* replacement values in thousandths; obs.before / obs.after / obs.scaled:   *)
(* columns in thousandths; obs.agg, obs.agg2: [name, v]; obs.exc.           *)
EXTENDS Loss, Judging

VARIABLES k, done, det, Ex     \* case, phase, scaled detailed losses, losses after exclusivity
C == Cases[k]
I == C.in
O == C.obs
N == I.n
Err == Has(O, "exc")
DVs == {I.dvs[d] : d \in DOMAIN I.dvs}
Rule(r) == [dv |-> r.dv, cmp |-> r.cmp, locs |-> {r.locs[i] : i \in DOMAIN r.locs}, dirs |-> {r.dirs[i] : i \in DOMAIN r.dirs}]
RECURSIVE Power8(_)
Power8(n) == IF n = 0 THEN 1 ELSE 8 * Power8(n - 1)
(* product of the factors of the matching rules, over 8^rules *)
RECURSIVE FactorUpTo(_, _)
FactorUpTo(col, j) == IF j = 0 THEN 1
                      ELSE FactorUpTo(col, j - 1) * (IF Matches(Rule(I.rules[j]), col) THEN I.rules[j].n ELSE 8)
Scaled(col) == LET f == FactorUpTo(col, Len(I.rules)) IN [r \in 1..N |-> (1000 * col.v[r] * f) \div Power8(Len(I.rules))]
Detailed == [c \in DOMAIN I.cols |-> [I.cols[c] EXCEPT !.v = Scaled(I.cols[c])]]

Key(c) == <<c.dv, c.loss, c.dmg, c.ds, c.loc, c.dir, c.uid>>
SameCols(obs, want) ==
  /\ Len(obs) = Len(want)
  /\ \A w \in DOMAIN want : \E o \in DOMAIN obs :
        Key(obs[o]) = Key(want[w]) /\ \A r \in 1..N : Abs(obs[o].v[r] - want[w].v[r]) <= 1

(* aggregation *)
Rep(dv) == O.rep[CHOOSE i \in DOMAIN O.rep : O.rep[i].dv = dv].v
Ratio(dv) == LET s == {i \in DOMAIN I.thr : I.thr[i].dv = dv} IN IF s = {} THEN -1 ELSE I.thr[CHOOSE i \in s : TRUE].ratio
Exceeds(dv, r) ==
  /\ I.usethr = 1 /\ Ratio(dv) >= 0 /\ OfDv(Ex, dv) # {}
  /\ LET open == {c \in OfDv(Ex, dv) : Ex[c].loss # "replacement"}
         own == {c \in OfDv(Ex, dv) : Ex[c].loss = "replacement"}
     IN (\A c \in own : Ex[c].v[r] = 0) /\ 4 * Total(Ex, open, r) > Rep(dv)[r] * Ratio(dv)
Triggered(r) == \E d \in DVs : Exceeds(d, r)
Wanted(name, r, trig) ==
  LET dv == CASE name = "repair_cost" -> "Cost" [] name = "repair_carbon" -> "Carbon"
              [] name = "repair_energy" -> "Energy" [] OTHER -> "Time"
  IN IF trig THEN Rep(dv)[r]
     ELSE IF OfDv(Ex, dv) = {} THEN 0
     ELSE IF name = "repair_time-parallel" THEN Parallel(Ex, dv, r) ELSE Sequential(Ex, dv, r)
Names == UNION {CASE d = "Cost" -> {"repair_cost"} [] d = "Carbon" -> {"repair_carbon"} [] d = "Energy" -> {"repair_energy"}
                  [] OTHER -> {"repair_time-sequential", "repair_time-parallel"} : d \in DVs}
AggBad(a) ==
  LET got == {a[i].name : i \in DOMAIN a}
      col(n) == a[CHOOSE i \in DOMAIN a : a[i].name = n].v
      rows == IF Len(I.cols) = 0 THEN {} ELSE 1..N
      trig == [r \in 1..N |-> r \in rows /\ Triggered(r)]
      Want(n, r) == Wanted(n, r, trig[r])
      value(n) == IF n \in got THEN \A r \in rows : Abs(col(n)[r] - Want(n, r)) <= 2
                  ELSE \A r \in rows : Want(n, r) = 0
  IN Clause("unknown-column", got \subseteq Names)
     \cup Clause("columns-once", Cardinality(got) = Len(a))
     \cup Clause("realizations", \A i \in DOMAIN a : Len(a[i].v) = (IF Len(I.cols) = 0 THEN 1 ELSE N))
     \cup Clause("sum", \A n \in Names \ {"repair_time-parallel"} : value(n))
     \cup Clause("parallel", "repair_time-parallel" \in Names => value("repair_time-parallel"))
     \cup Clause("parallel-above-sequential",
           {"repair_time-parallel", "repair_time-sequential"} \subseteq got =>
              \A r \in rows : col("repair_time-parallel")[r] <= col("repair_time-sequential")[r] + 1)
ExcBad ==
  Clause("exceedance-flags", I.usethr = 1 => \A i \in DOMAIN O.flags : \A r \in 1..N :
            (O.flags[i].v[r] = 1) <=> Exceeds(O.flags[i].dv, r))

Bad ==
  IF I.expect = 1 THEN Clause("malformed-accepted", Err)
  ELSE IF Err THEN {"unexpected-error"}
  ELSE Clause("scaled-losses", I.rules # <<>> => SameCols(O.scaled, det))
       \cup AggBad(O.agg)
       \cup Clause("pure-read", O.before = O.after /\ SameCols(O.after, det))
       \cup (IF I.usethr = 0 THEN Clause("repeatable", O.agg = O.agg2) ELSE {})
       \cup ExcBad
JInit == k \in DOMAIN Cases /\ done = 0 /\ det = Detailed /\ Ex = Exclusive(det)
JNext == done = 0 /\ Report(C.id, Bad) /\ done' = 1 /\ UNCHANGED <<k, det, Ex>>
=============================================================================
