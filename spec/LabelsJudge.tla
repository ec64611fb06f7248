----------------------------- MODULE LabelsJudge -----------------------------
(* kind "round": in.labels hierarchical, in.data ints per label; obs.compact, *)
(* obs.back, obs.data1, obs.data2 (data along the labels), obs.kept: the       *)
(* caller's own table after the calls is unchanged (or, in place, converted).  *)
(* kind "split": in.compact; obs.back, obs.data2.                              *)
(* kind "report": every number of the result files, with the label in parts.   *)
EXTENDS Labels, Judging
VARIABLES k, todo
I == Cases[k].in
Obs == Cases[k].obs
Round == Clause("compact-labels", Obs.compact = ToCompact(I.labels))
         \cup Clause("labels", Obs.back = I.labels) \cup Clause("data", Obs.data1 = I.data /\ Obs.data2 = I.data)
         \cup Clause("caller-table", Obs.kept)
SplitBad == Clause("labels", Obs.back = ToHierarchy(I.compact)) \cup Clause("data", Obs.data2 = I.data)
(* report: in.demand [type, loc, dir, v], in.rows [cmp, cons, loc, dir, q], in.comps [cmp, cons, type, caps (per limit state),  *)
(* cost (per damage state, per dv)]; obs.files: [what, label parts, v]                                                          *)
Comp(c) == I.comps[CHOOSE i \in DOMAIN I.comps : I.comps[i].cmp = c]
KnownCmp(c) == \E i \in DOMAIN I.comps : I.comps[i].cmp = c
Dem(t, l, d) == I.demand[CHOOSE i \in DOMAIN I.demand : I.demand[i].type = t /\ I.demand[i].loc = l /\ I.demand[i].dir = d].v
State(c, l, d, r) == LET x == Comp(c) v == Dem(x.type, l, d)[r]
                         over == {i \in DOMAIN x.caps : x.caps[i] < v} IN IF over = {} THEN 0 ELSE MaxSet(over)
Of(what) == {i \in DOMAIN Obs.files : Obs.files[i].what = what}
F(i) == Obs.files[i]
Assets == Of("asset")
Rows(c, l, d) == {i \in DOMAIN I.rows : I.rows[i].cmp = c /\ I.rows[i].loc = l /\ I.rows[i].dir = d}
QtyOf(c, l, d, u) == LET S == {i \in Assets : F(i).label = <<c, l, d, u>>} IN IF S = {} THEN -1 ELSE F(CHOOSE i \in S : TRUE).v[1]
AssetBad ==
  \/ \E i \in Assets : LET x == F(i).label IN
       \/ Len(x) # 4 \/ \E r \in DOMAIN F(i).v : F(i).v[r] # F(i).v[1]
       \/ Cardinality({j \in Assets : F(j).v[1] = F(i).v[1] /\ SubSeq(F(j).label, 1, 3) = SubSeq(x, 1, 3)})
            # Cardinality({j \in Rows(x[1], x[2], x[3]) : I.rows[j].q = F(i).v[1]})
  \/ Cardinality(Assets) # Len(I.rows)
  \/ Cardinality({F(i).label : i \in Assets}) # Len(I.rows)
DemandBad == \/ Cardinality(Of("demand")) # Len(I.demand)
             \/ \E i \in Of("demand") : LET x == F(i).label IN
                  ~\E j \in DOMAIN I.demand : <<I.demand[j].type, I.demand[j].loc, I.demand[j].dir>> = x /\ I.demand[j].v = F(i).v
DamageBad ==
  \/ \E i \in Of("damage") : LET x == F(i).label IN
       ~(Len(x) = 5 /\ KnownCmp(x[1]) /\ \A r \in DOMAIN F(i).v :
          F(i).v[r] = IF ToString(State(x[1], x[2], x[3], r)) = x[5] THEN QtyOf(x[1], x[2], x[3], x[4]) ELSE 0)
  \/ \E a \in Assets : LET x == F(a).label IN \E r \in DOMAIN F(a).v :
       ~\E i \in Of("damage") : F(i).label = x \o <<ToString(State(x[1], x[2], x[3], r))>>
(* labels of losses: dv, consequence, component, damage state, location, direction, uid *)
LossBad ==
  \/ \E i \in Of("loss") : LET x == F(i).label IN
       ~(Len(x) = 7 /\ KnownCmp(x[3]) /\ Comp(x[3]).cons = x[2] /\ \A r \in DOMAIN F(i).v :
          LET s == State(x[3], x[5], x[6], r) IN
          F(i).v[r] = IF s > 0 /\ ToString(s) = x[4] THEN QtyOf(x[3], x[5], x[6], x[7]) * Comp(x[3]).cost[x[1]][s] ELSE 0)
  \/ \E a \in Assets : LET x == F(a).label IN \E r \in DOMAIN F(a).v : \E dv \in DOMAIN Comp(x[1]).cost :
       LET s == State(x[1], x[2], x[3], r) IN
       s > 0 /\ ~\E i \in Of("loss") : F(i).label = <<dv, Comp(x[1]).cons, x[1], ToString(s), x[2], x[3], x[4]>>
ReportBad == Clause("demand-labels", ~DemandBad) \cup Clause("asset-labels", ~AssetBad)
             \cup (IF AssetBad THEN {} ELSE Clause("damage-labels", ~DamageBad) \cup Clause("loss-labels", ~LossBad))
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ todo' = FALSE /\ k' = k
         /\ Report(Cases[k].id, CASE I.kind = "round" -> Round [] I.kind = "split" -> SplitBad [] OTHER -> ReportBad)
=============================================================================
