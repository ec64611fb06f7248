----------------------------- MODULE Uncertain -----------------------------
(* One capacity or consequence with a distribution, sampled in n strata of    *)
(* equal probability, one value in each. u: [what, family, value, ln, theta1, *)
(* samples]; the median is 1000, theta1 in thousandths, ln the logarithm of   *)
(* value / 1000 in millionths.                                                *)
EXTENDS Integers, Sequences, FiniteSets, NormalTable
Quantile(u) == IF u.family = "normal" THEN Over((u.value - 1000) * 1000, u.theta1) ELSE Over(u.ln, u.theta1)
(* the number of capacities below a demand of probability p (millionths) in n strata, with a tolerance *)
Fits(count, n, p) == Magnitude(1000000 * count - n * p) <= 1000000 + 2000 * n
Hits(u) == {h \in 0..u.samples : Fits(h, u.samples, Cum(Quantile(u)))}
(* sorted values (thousandths of a standard normal variable), one in each stratum *)
Stratified(zs) == \A i \in DOMAIN zs : LET n == Len(zs) c == n * Cum(zs[i]) IN (i - 1) * 1000000 - 2000 * n <= c /\ c <= i * 1000000 + 2000 * n
Outcome(u, o) ==
  CASE u.what = "collapse" -> o.collapse \in Hits(u) /\ o.irreparable = 0
    [] u.what = "irreparable" -> o.irreparable \in Hits(u) /\ o.collapse = 0
    [] OTHER -> o.collapse = u.samples /\ o.irreparable = 0
(* a collapse or an irreparable building costs the replacement, and nothing else costs anything *)
Paid(u, o) == IF u.what = "cost" THEN Len(o.costs) = u.samples /\ Stratified(o.costs)
              ELSE o.total = 100 * (o.collapse + o.irreparable)
=============================================================================
