----------------------------- MODULE UnitsJudge -----------------------------
(* kind "model": obs.runs[v] = [exc] or [out: seq of [key, unit, v]]: every   *)
(* reported number of variant v with the unit it is in ("" for a count).     *)
(* in.units: [name, f, p] factors by definition (not by the code).           *)
(* kind "convert": obs.vals of in.from -> in.to; kind "reject": an error is  *)
(* due.                                                                     *)
EXTENDS Units, Judging
VARIABLES k, v, bad
C == Cases[k]
I == C.in
U(n) == IF n = "" THEN [f |-> 1, p |-> 0] ELSE
          LET x == I.units[CHOOSE i \in DOMAIN I.units : I.units[i].name = n] IN [f |-> x.f, p |-> x.p]
Runs == C.obs.runs
(* run 2 states results in the units of run 1; elsewhere the inputs went through
   other units, whose factors are rounded in the seventh digit                 *)
Agree(w, a, b) == IF a.unit = "" \/ (w = 2 /\ a.unit = b.unit) THEN Near9(a.v, b.v) ELSE SamePhysical(a.v, U(a.unit), b.v, U(b.unit))
RunBad(w) == LET run == Runs[w] IN
  IF Has(run, "exc") THEN {"unexpected-error"}
  ELSE IF Has(Runs[1], "exc") THEN {}
  ELSE LET one == Runs[1].out IN
       IF Len(run.out) # Len(one) \/ \E i \in DOMAIN run.out : run.out[i].key # one[i].key THEN {"labels"}
       ELSE {run.out[i].what : i \in {j \in DOMAIN run.out : ~Agree(w, run.out[j], one[j])}}
ConvertBad ==
  Clause("length", Len(C.obs.vals) = Len(I.vals))
  \cup Clause("factor", \A i \in DOMAIN I.vals : SamePhysical(I.vals[i], U(I.from), C.obs.vals[i], U(I.to)))
  \cup Clause("round-trip", \A i \in DOMAIN I.vals : Near9(I.vals[i], C.obs.back[i]))
JInit == k \in DOMAIN Cases /\ v = 1 /\ bad = {}
Step == /\ I.kind = "model" /\ v <= Len(Runs) /\ bad' = bad \cup RunBad(v) /\ v' = v + 1 /\ k' = k
Finish == /\ CASE I.kind = "model" -> v = Len(Runs) + 1 /\ Report(C.id, bad)
               [] I.kind = "convert" -> v = 1 /\ Report(C.id, IF Has(C.obs, "exc") THEN {"unexpected-error"} ELSE ConvertBad)
               [] OTHER -> v = 1 /\ Report(C.id, Clause("unknown-unit-accepted", Has(C.obs, "exc")))
          /\ v' = 1000 /\ UNCHANGED <<k, bad>>
JNext == v < 1000 /\ (Step \/ Finish)
=============================================================================
