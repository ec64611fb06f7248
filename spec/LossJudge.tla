----------------------------- MODULE LossJudge -----------------------------
(* Recorded damage-state losses. in: damage, map, params, eco, dvs, n, rho; *)
(* obs.damage = damaged quantities the code used, obs.cols = loss columns   *)
(* with values in thousandths, and rank = stratum of the deviation in each  *)
(* realization for random columns.                                          *)
EXTENDS Loss, Judging

VARIABLES k, g, bad
C == Cases[k]
D == C.obs.damage
Key(c) == <<c.dv, c.dmg, c.ds, c.loc, c.dir, c.uid>>
Damaged == {i \in DOMAIN D : D[i].ds # 0}

ColumnBad(o) ==
  LET src == {i \in Damaged : D[i].cmp = o.dmg /\ D[i].ds = o.ds /\ D[i].loc = o.loc /\ D[i].dir = o.dir /\ D[i].uid = o.uid}
      st == StateOf(C.in.params, C.in.map, o.dmg, o.dv, o.ds)
  IN IF src = {} \/ Cardinality(st) # 1 \/ o.dv \notin {C.in.dvs[i] : i \in DOMAIN C.in.dvs} THEN {"invented-column"}
     ELSE LET col == D[CHOOSE i \in src : TRUE]
              s == CHOOSE x \in st : TRUE
          IN Clause("loss-id", o.loss \in Cons(C.in.map, o.dmg))
             \cup Clause("realizations", Len(o.v) = C.in.n)
             \cup IF s.rnd = 0
                  THEN Clause("loss-value", \A r \in DOMAIN o.v : Abs(o.v[r] - 1000 * Expected(D, C.in.eco, s, col, r)) <= 1)
                  ELSE Clause("zero-quantity", \A r \in DOMAIN o.v : col.q[r] <= 0 => o.v[r] = 0)
                       \cup Clause("deviation", ~(C.in.half = 1 /\ o.dv = "Time") => {o.rank[r] : r \in DOMAIN o.rank} = 0..(C.in.n - 1))

Partner(o, p) == /\ o.dv = "Cost" /\ p.dv = "Time" /\ Tail(Key(o)) = Tail(Key(p))
Random(o) == Has(o, "rank")
PairBad ==
  LET cols == C.obs.cols
      R == {i \in DOMAIN cols : Random(cols[i])}
  IN Clause("cost-time", \A i, j \in R : (i # j /\ Partner(cols[i], cols[j]) /\ C.in.half = 0) =>
               CASE C.in.rho = 1 -> cols[i].rank = cols[j].rank
                 [] C.in.rho = -1 -> \A r \in DOMAIN cols[i].rank : cols[i].rank[r] + cols[j].rank[r] = C.in.n - 1
                 [] OTHER -> cols[i].rank # cols[j].rank)
     \cup Clause("own-deviation", \A i, j \in R :
               (i # j /\ ~Partner(cols[i], cols[j]) /\ ~Partner(cols[j], cols[i])) => cols[i].rank # cols[j].rank)
     \cup Clause("duplicate-column", Cardinality({Key(cols[i]) : i \in DOMAIN cols}) = Len(cols))

(* every loss that is not zero has its column *)
MissingBad ==
  Clause("missing-column",
    \A i \in Damaged : \A d \in DOMAIN C.in.dvs :
      LET st == StateOf(C.in.params, C.in.map, D[i].cmp, C.in.dvs[d], D[i].ds)
      IN (st # {} /\ \E r \in DOMAIN D[i].q : Expected(D, C.in.eco, CHOOSE x \in st : TRUE, D[i], r) # 0)
           => \E o \in DOMAIN C.obs.cols :
                Key(C.obs.cols[o]) = <<C.in.dvs[d], D[i].cmp, D[i].ds, D[i].loc, D[i].dir, D[i].uid>>)

JInit == k \in DOMAIN Cases /\ g = 1 /\ bad = {}
StepColumn == /\ g <= Len(C.obs.cols)
              /\ bad' = bad \cup ColumnBad(C.obs.cols[g])
              /\ g' = g + 1 /\ k' = k
Finish == /\ g = Len(C.obs.cols) + 1
          /\ Report(C.id, bad \cup MissingBad \cup PairBad)
          /\ g' = g + 1 /\ UNCHANGED <<k, bad>>
JNext == StepColumn \/ Finish
=============================================================================
