------------------------------ MODULE Capacity ------------------------------
(* Capacity adjustments (property C05).                                     *)
(*                                                                          *)
(* spec: sequence of [cmp, loc, dir, entries], entries a sequence of        *)
(* [ls, ops] with ls = 0 for ALL, ops a sequence of [op, n]; numbers and    *)
(* capacities are quarters. A capacity is a fraction <<p, q>>, q > 0.       *)
EXTENDS DamageState

Apply(c, o) ==
  CASE o.op = "+" -> <<c + o.n, 4>>
    [] o.op = "-" -> <<c - o.n, 4>>
    [] o.op = "*" -> <<c * o.n, 16>>
    [] o.op = "/" -> IF o.n > 0 THEN <<c, o.n>> ELSE <<-c, -(o.n)>>

(* the operations that reach limit state n of a performance group *)
OpsFor(spec, grp, n) ==
  LET mine == {i \in DOMAIN spec : spec[i].cmp = grp.cmp /\ spec[i].loc = grp.loc /\ spec[i].dir = grp.dir}
  IN IF mine = {} THEN <<>>
     ELSE LET e == spec[CHOOSE i \in mine : TRUE].entries
              hit == {j \in DOMAIN e : e[j].ls \in {0, n}}
          IN IF hit = {} THEN <<>> ELSE e[CHOOSE j \in hit : TRUE].ops

Adjusted(spec, grp, n, c, r) ==
  LET o == OpsFor(spec, grp, n)
  IN IF o = <<>> THEN <<c, 4>>
     ELSE Apply(c, IF Len(o) = 1 THEN o[1] ELSE o[r])

(* fraction < d/4 *)
Below(f, d) == 4 * f[1] < d * f[2]
(* 1.3 * fraction < d/4 and 0.7 * fraction < d/4 *)
SurelyBelow(f, d) == 52 * f[1] < 10 * d * f[2]
MaybeBelow(f, d) == 28 * f[1] < 10 * d * f[2]
=============================================================================
