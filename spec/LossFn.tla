------------------------------- MODULE LossFn -------------------------------
(* Losses read from loss functions (property C08). in.groups: [cmp, loc,    *)
(* dir, uid, qty, blocks]; params: [cons, dv, term, xs, ys, rnd] with the    *)
(* demand term of Demand.tla; demands in tenths after multipliers.          *)
EXTENDS Demand

(* ys at the demand d (tenths): whole slopes, so the result is in tenths *)
InDomain(xs, d) == 10 * xs[1] <= d /\ d <= 10 * xs[Len(xs)]
Read(xs, ys, d) ==
  IF d = 10 * xs[Len(xs)] THEN 10 * ys[Len(ys)]
  ELSE LET i == CHOOSE j \in 1..(Len(xs) - 1) : 10 * xs[j] <= d /\ d < 10 * xs[j + 1]
       IN 10 * ys[i] + ((ys[i + 1] - ys[i]) \div (xs[i + 1] - xs[i])) * (d - 10 * xs[i])

ConsOf(map, cmp) == {map[i].cons : i \in {j \in DOMAIN map : map[j].cmp = cmp}}
ParamsOf(params, map, cmp, dv) == {i \in DOMAIN params : params[i].cons \in ConsOf(map, cmp) /\ params[i].dv = dv}

Drive(inp, p, grp, r) == TermValue(inp.sample, p.term, grp.loc, grp.dir, inp.opts, r)
(* in tenths *)
LossOf(inp, p, grp, r) == grp.qty * Read(p.xs, p.ys, Drive(inp, p, grp, r))
=============================================================================
