--------------------------- MODULE ResidualJudge ---------------------------
(* in.cols: the demands before; in.yields: direction -> yield (millionths);  *)
(* obs.runs[i]: after = the demands afterwards; rid = [loc, dir, d, r] with   *)
(* peak and residual drifts of each realization, or [loc, dir, c, med] with   *)
(* the constant drift and the median over many; same: old columns unchanged;  *)
(* units; caller: settings unchanged; n                                       *)
EXTENDS Residual, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
Before == ToSet(I.cols)
Y(x) == I.yields[x.dir]
Small(x, r) == Regime(x.d[r], Y(x)) = "small"
(* how many lie above the median of their regime *)
AboveCount(run, reg) == SumSeq([j \in DOMAIN run.rid |-> Cardinality({r \in DOMAIN run.rid[j].d :
                           /\ Regime(run.rid[j].d[r], Y(run.rid[j])) = reg
                           /\ run.rid[j].r[r] > Median(run.rid[j].d[r], Y(run.rid[j]))})])
Total(run, reg) == SumSeq([j \in DOMAIN run.rid |-> Cardinality({r \in DOMAIN run.rid[j].d :
                           Regime(run.rid[j].d[r], Y(run.rid[j])) = reg})])
SignTest(run, reg) == LET a == AboveCount(run, reg) t == Total(run, reg) IN (2 * a - t) * (2 * a - t) <= 25 * t + 100
BadRun(run) ==
  LET Rid == {[type |-> "RID", loc |-> run.rid[j].loc, dir |-> run.rid[j].dir] : j \in DOMAIN run.rid}
  IN Clause("columns", ToSet(run.after) = Adjusted(Before, I.yields) \cup ToSet(I.extra) /\ Len(run.after) = Cardinality(ToSet(run.after)))
     \cup Clause("residuals", Rid = Residuals(Before, I.yields))
     \cup Clause("count", run.n = I.n)
     \cup Clause("kept", run.same = 1)
     \cup Clause("units", run.units = 1)
     \cup Clause("caller", run.caller = 1)
     \cup (IF Rid # Residuals(Before, I.yields) THEN {} ELSE
          IF I.kind = "constant"
          THEN Clause("median", \A j \in DOMAIN run.rid : LET x == run.rid[j] m == Median(x.c, Y(x)) IN Abs(x.med - m) <= 2 + m \div 40)
               \cup Clause("range", \A j \in DOMAIN run.rid : LET x == run.rid[j] IN x.lo >= 0 /\ x.hi <= x.c + 1 /\ (Regime(x.c, Y(x)) = "small" => x.hi = 0))
          ELSE Clause("range", \A j \in DOMAIN run.rid : \A r \in DOMAIN run.rid[j].d : LET x == run.rid[j] IN x.r[r] >= 0 /\ x.r[r] <= x.d[r] + 1)
               \cup Clause("yield", \A j \in DOMAIN run.rid : \A r \in DOMAIN run.rid[j].d : LET x == run.rid[j] IN
                        (Small(x, r) => x.r[r] = 0) /\ (x.d[r] > Y(x) + 20 => x.r[r] > 0))
               \cup Clause("medium", SignTest(run, "medium"))
               \cup Clause("large", SignTest(run, "large")))
Bad == IF Has(O, "exc") THEN {"error"} ELSE UNION {BadRun(O.runs[i]) : i \in DOMAIN O.runs} \cup Clause("runs", Len(O.runs) = I.runs)
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
