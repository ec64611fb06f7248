--------------------------- MODULE LossComboJudge ---------------------------
(* A case is a batch of scenarios run in one interpreter: in.scen[s] =       *)
(* [n, dvs, cols, combos], obs.res[s] = [exc] or [agg: seq of [name, v]];    *)
(* or a set of digests of one computation from several interpreters.        *)
EXTENDS LossCombo, Judging

VARIABLES k, s, bad
C == Cases[k]
Agg(o, name) == o.agg[CHOOSE i \in DOMAIN o.agg : o.agg[i].name = name].v
Got(o) == {o.agg[i].name : i \in DOMAIN o.agg}
Name(dv) == CASE dv = "Cost" -> "repair_cost" [] dv = "Carbon" -> "repair_carbon" [] dv = "Energy" -> "repair_energy"
              [] OTHER -> "repair_time-sequential"
ScenBad(sc, o) ==
  IF Has(o, "exc") THEN {"unexpected-error"}
  ELSE LET res == Combined(sc.cols, sc.combos, sc.n)
           have == {sc.cols[c].dv : c \in DOMAIN sc.cols}
           involved == {sc.combos[c].dv : c \in DOMAIN sc.combos}
           tot(dv) == [r \in 1..sc.n |-> SumAt(sc.cols, res, dv, Locs(sc.cols, dv), r)]
           close(a, b) == Len(a) = sc.n /\ \A r \in 1..sc.n : Abs(a[r] - b[r]) <= 4
           parts == [l \in Locs(sc.cols, "Time") |-> [r \in 1..sc.n |-> SumAt(sc.cols, res, "Time", {l}, r)]]
       IN UNION {IF Name(dv) \notin Got(o) THEN {"missing"}
                 ELSE Clause(IF dv \in involved THEN "combined" ELSE "plain-sum", close(Agg(o, Name(dv)), tot(dv))) : dv \in have}
          \cup (IF "Time" \in have /\ "repair_time-parallel" \in Got(o)
                THEN Clause("parallel", close(Agg(o, "repair_time-parallel"),
                       [r \in 1..sc.n |-> MaxSet({parts[l][r] : l \in DOMAIN parts})]))
                ELSE {})
JInit == k \in DOMAIN Cases /\ s = 1 /\ bad = {}
Step == /\ C.in.kind = "batch" /\ s <= Len(C.in.scen)
        /\ bad' = bad \cup ScenBad(C.in.scen[s], C.obs.res[s])
        /\ s' = s + 1 /\ k' = k
Finish == /\ IF C.in.kind = "batch"
             THEN s = Len(C.in.scen) + 1 /\ Report(C.id, bad)
             ELSE s = 1 /\ Report(C.id, Clause("depends-on-interpreter", \A i, j \in DOMAIN C.obs.digests : C.obs.digests[i] = C.obs.digests[j])
                                       \cup Clause("unexpected-error", C.obs.errors = 0))
          /\ s' = 100000 /\ UNCHANGED <<k, bad>>
JNext == s < 100000 /\ (Step \/ Finish)
=============================================================================
