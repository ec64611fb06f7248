------------------------------ MODULE Onecall ------------------------------
(* A whole assessment described by the arguments of three calls (C32):      *)
(* calculate_damage, calculate_loss and aggregate_loss.                     *)
(*                                                                          *)
(* x: the arguments of the damage call                                      *)
(*   n, stories; cols: raw demands [type, loc, dir, v]                      *)
(*   rid: "none" | "elastic" | "plastic" - residual drifts asked for, with  *)
(*        a yield drift above or far below all drifts                       *)
(*   extra: {} or {[type, loc, dir, v]} - the additional demand             *)
(*   comps: [cmp, term, caps]; rows: [cmp, loc, dir, q] (C14 expressions)   *)
(*   factors: [cmp, loc, dir, f]: capacities multiplied by f                *)
(*   rules: damage process (C03)                                            *)
(* y: the arguments of the loss call                                        *)
(*   dvs, map: [cmp, cons], policy: "none" | "fill" | "fill_all"            *)
(*   params: [cons, dv, states: [ds, v]]                                    *)
(* Demands and capacities are in thousandths.                               *)
EXTENDS Demand, DamageState, Asset, Loss, TLC
P == INSTANCE DamageProcess

Opts == [offset |-> <<[type |-> "PFA", v |-> -1], [type |-> "PFV", v |-> -1]>>,
         mult |-> <<[type |-> "ALL", v |-> 12]>>]

(* the rows of the raw demands in turn, as many as realizations are asked for *)
Drawn(x) == [c \in DOMAIN x.cols |->
               [x.cols[c] EXCEPT !.v = [r \in 1..x.n |-> x.cols[c].v[((r - 1) % Len(x.cols[c].v)) + 1]]]]
Drifts(cs) == SelectSeq(cs, LAMBDA c : c.type = "PID")
(* residual drifts: none below yield; far above it no more than the drift,    *)
(* which stands for them where only their being positive matters             *)
Residual(x, cs) ==
  IF x.rid = "none" THEN <<>>
  ELSE [i \in DOMAIN Drifts(cs) |->
          [Drifts(cs)[i] EXCEPT !.type = "RID", !.v = [r \in 1..x.n |-> IF x.rid = "elastic" THEN 0 ELSE Drifts(cs)[i].v[r]]]]
Demands(x) == Drawn(x) \o Residual(x, Drawn(x)) \o x.extra

Comp(x, cmp) == x.comps[CHOOSE i \in DOMAIN x.comps : x.comps[i].cmp = cmp]
(* performance groups in the order of the rows *)
GroupsOf(x) ==
  LET gs == Groups(x.rows, x.stories)
  IN [i \in DOMAIN gs |-> [cmp |-> gs[i].place[1], loc |-> gs[i].place[2], dir |-> gs[i].place[3], q |-> x.rows[gs[i].row].q]]
Factor(x, g) == LET s == {i \in DOMAIN x.factors : x.factors[i].cmp = g.cmp /\ x.factors[i].loc = g.loc /\ x.factors[i].dir = g.dir}
                IN IF s = {} THEN 1 ELSE x.factors[CHOOSE i \in s : TRUE].f
Limits(caps) == [i \in DOMAIN caps |-> [num |-> i, w |-> <<1>>]]
DSOf(x, sample, g, r) ==
  LET c == Comp(x, g.cmp) f == Factor(x, g)
      d == TermValue(sample, c.term, g.loc, g.dir, Opts, r)
      s == Allowed(Limits(c.caps), Exceeded(Limits(c.caps), LAMBDA m : 10 * c.caps[m] * f, d))
  IN CHOOSE v \in s : TRUE

RECURSIVE Steps(_, _, _)
Steps(cols, ds, prog) ==
  IF prog = <<>> THEN ds
  ELSE Steps(cols, P!ApplySample(cols, ds, Head(prog).src, Head(prog).byloc, Head(prog).ds, Head(prog).tgt, Head(prog).to), Tail(prog))
(* damage states: one row per realization, one entry per group *)
Damage(x) ==
  LET s == Demands(x) gs == GroupsOf(x)
  IN Steps(gs, [r \in 1..x.n |-> [i \in DOMAIN gs |-> DSOf(x, s, gs[i], r)]], P!Program(x.rules))

(* the loss map in force *)
Mapped(x, y, cmp) ==
  LET own == {i \in DOMAIN y.map : y.map[i].cmp = cmp}
  IN IF own # {} THEN y.map[CHOOSE i \in own : TRUE].cons
     ELSE IF y.policy = "fill_all" \/ (y.policy = "fill" /\ cmp # "excessiveRID") THEN cmp
     ELSE ""
MapValid(y) == Len(y.map) > 0 \/ y.policy # "none"
UnitLoss(y, cons, dv, ds) ==
  LET p == {i \in DOMAIN y.params : y.params[i].cons = cons /\ y.params[i].dv = dv}
  IN IF p = {} THEN 0
     ELSE LET st == y.params[CHOOSE i \in p : TRUE].states
              s == {j \in DOMAIN st : st[j].ds = ds}
          IN IF s = {} THEN 0 ELSE st[CHOOSE j \in s : TRUE].v
(* detailed losses per decision variable and group; dam = Damage(x) *)
Losses(x, y, dam) ==
  LET gs == GroupsOf(x)
  IN FlattenSeq([d \in DOMAIN y.dvs |-> [i \in DOMAIN gs |->
       [dv |-> y.dvs[d], loc |-> gs[i].loc, loss |-> Mapped(x, y, gs[i].cmp), cmp |-> gs[i].cmp, dir |-> gs[i].dir,
        v |-> [r \in 1..x.n |-> gs[i].q * UnitLoss(y, Mapped(x, y, gs[i].cmp), y.dvs[d], dam[r][i])]]]])
(* the aggregate of one realization: losses ls with replacement exclusive, z: [dv, limit, value] *)
Over(ls, z, r) == \E i \in DOMAIN z : /\ z[i].limit >= 0
                                      /\ OfDv(ls, z[i].dv) # {}
                                      /\ \A c \in OfDv(ls, z[i].dv) : ls[c].loss = "replacement" => ls[c].v[r] = 0
                                      /\ 4 * Total(ls, {c \in OfDv(ls, z[i].dv) : ls[c].loss # "replacement"}, r) > z[i].value * z[i].limit
Aggregate(ls, z, name, r) ==
  LET dv == CASE name = "repair_cost" -> "Cost" [] name = "repair_carbon" -> "Carbon" [] OTHER -> "Time"
      repl == {i \in DOMAIN z : z[i].dv = dv}
  IN IF Over(ls, z, r) /\ repl # {} THEN z[CHOOSE i \in repl : TRUE].value
     ELSE IF OfDv(ls, dv) = {} THEN 0
     ELSE IF name = "repair_time-parallel" THEN Parallel(ls, dv, r) ELSE Sequential(ls, dv, r)
=============================================================================
