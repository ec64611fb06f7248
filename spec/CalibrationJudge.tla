------------------------- MODULE CalibrationJudge -------------------------
(* in.demands: the columns [type, base]; in.raw: realizations in 1/100 mm;   *)
(* in.steps: the configurations calibrated one after the other, each with    *)
(* cfg (sections, limits in hundredths of `unit` mm) and eff (what the       *)
(* reference was given). obs.steps[s]: fam, tl, tu, kept (<<-1>> unknown),   *)
(* t0, t1 with the reference values r0, r1 (1/100 mm, or thousandths for a   *)
(* dispersion without a unit), rho (largest difference, thousandths), cols   *)
EXTENDS Calibration, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
(* the integral over more than two dimensions that have limits is a random estimate *)
Noisy(eff) == LET F == {d \in DOMAIN eff : eff[d].fam # "empirical"}
              IN Cardinality(F) > 2 /\ \E d \in F : eff[d].cl + eff[d].cu + eff[d].tl + eff[d].tu > 0
Near(a, b, noisy) == Abs(a - b) <= 2 + Abs(b) \div (IF noisy THEN 10 ELSE 400)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
BadStep(s) ==
  LET c == I.steps[s].cfg o == O.steps[s] D == DOMAIN I.demands
      eff == [d \in D |-> Settings(c, I.demands[d])]
      want == KeptSet(I.raw, eff)
      noisy == Noisy(eff)
  IN Clause("oracle", \A d \in D : [eff[d] EXCEPT !.add = 0] = [I.steps[s].eff[d] EXCEPT !.add = 0] /\ eff[d].add = I.steps[s].eff[d].add)
     \cup (IF o.err = 1 THEN Clause("fit", o.referr = 1 \/ noisy) ELSE
       Clause("family", \A d \in D : o.fam[d] = eff[d].fam)
       \cup Clause("limits", \A d \in D : o.tl[d] = eff[d].tl /\ o.tu[d] = eff[d].tu)
       \cup Clause("kept", o.kept = <<-1>> \/ o.kept = Sorted(want))
       \cup Clause("columns", o.cols = 1)
       \cup Clause("raw-sample", o.raw = 1)
       \cup (IF o.referr = 1 THEN {} ELSE
         Clause("location", \A d \in D : eff[d].fam # "empirical" => Near(o.t0[d], o.r0[d], noisy))
         \cup Clause("dispersion", \A d \in D : eff[d].fam # "empirical" =>
                LET a == IF eff[d].fam \in Normals THEN eff[d].add ELSE eff[d].add * 10
                IN Abs(o.t1[d] * o.t1[d] - o.r1[d] * o.r1[d] - a * a) <= 4 * (o.t1[d] + 2) + (o.t1[d] * o.t1[d]) \div (IF noisy THEN 3 ELSE 200))
         \cup Clause("correlation", o.rho <= (IF noisy THEN 300 ELSE 10))))
Bad == IF Has(O, "exc") THEN {"error"} ELSE UNION {BadStep(s) : s \in DOMAIN I.steps}
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
