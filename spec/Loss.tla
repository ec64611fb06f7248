-------------------------------- MODULE Loss --------------------------------
(* Losses driven by damage states (property C07).                           *)
(*                                                                          *)
(* damage: sequence of columns [cmp, loc, dir, uid, ds, q], q = one whole    *)
(* quantity per realization, -1 when the realization has none.              *)
(* map: sequence of [cmp, cons]. params: sequence of [cons, dv, states],    *)
(* states a sequence of [ds, xs, ys, rnd]: unit consequence ys[i] at the     *)
(* quantity xs[i] (one point: a constant), rnd = 1 with random deviation.   *)
(* eco: [floors, states] with 1 when quantities are summed across them.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Pos(x) == IF x < 0 THEN 0 ELSE x

SumOver(S, f(_)) == MapThenSumSet(f, S)

(* piecewise linear, constant beyond both ends; slopes are whole numbers *)
Interp(xs, ys, q) ==
  IF q <= xs[1] THEN ys[1]
  ELSE IF q >= xs[Len(xs)] THEN ys[Len(ys)]
  ELSE LET i == CHOOSE j \in 1..(Len(xs) - 1) : xs[j] <= q /\ q < xs[j + 1]
       IN ys[i] + ((ys[i + 1] - ys[i]) * (q - xs[i])) \div (xs[i + 1] - xs[i])

EcoQuantity(damage, eco, col, r) ==
  SumOver({c \in DOMAIN damage :
             /\ damage[c].ds # 0 /\ damage[c].cmp = col.cmp
             /\ (eco.states = 1 \/ damage[c].ds = col.ds)
             /\ (eco.floors = 1 \/ damage[c].loc = col.loc)},
          LAMBDA c : Pos(damage[c].q[r]))

Cons(map, cmp) == {map[i].cons : i \in {j \in DOMAIN map : map[j].cmp = cmp}}

(* the consequence of a damage state: {} or one record *)
StateOf(params, map, cmp, dv, ds) ==
  UNION {LET p == params[i] IN {p.states[j] : j \in {x \in DOMAIN p.states : p.states[x].ds = ds}} :
           i \in {x \in DOMAIN params : params[x].cons \in Cons(map, cmp) /\ params[x].dv = dv}}

UnitCons(damage, eco, st, col, r) == Interp(st.xs, st.ys, EcoQuantity(damage, eco, col, r))
Expected(damage, eco, st, col, r) == Pos(col.q[r]) * UnitCons(damage, eco, st, col, r)

(* aggregation (C09): cols = sequence of [dv, loc, v] *)
Total(cols, S, r) == SumOver(S, LAMBDA c : cols[c].v[r])
OfDv(cols, dv) == {c \in DOMAIN cols : cols[c].dv = dv}
Sequential(cols, dv, r) == Total(cols, OfDv(cols, dv), r)
Parallel(cols, dv, r) ==
  LET sums == {Total(cols, {c \in OfDv(cols, dv) : cols[c].loc = l}, r) : l \in {cols[c].loc : c \in OfDv(cols, dv)}}
  IN CHOOSE x \in sums : \A y \in sums : y <= x

(* replacement (C10): realizations replaced by their own losses *)
ReplacedRow(cols, r) == \E c \in DOMAIN cols : cols[c].loss = "replacement" /\ cols[c].v[r] > 0
(* losses left when replacement is exclusive *)
Left(cols, c, r) == IF ReplacedRow(cols, r) /\ cols[c].loss # "replacement" THEN 0 ELSE cols[c].v[r]
Exclusive(cols) == [c \in DOMAIN cols |-> [cols[c] EXCEPT !.v = [r \in DOMAIN cols[c].v |-> Left(cols, c, r)]]]

(* scaling (C12): rules [dv, cmp, locs, dirs, n], cmp = "" and {} = any; factors in eighths *)
Matches(rule, col) == /\ rule.dv = col.dv
                      /\ (rule.cmp = "" \/ rule.cmp = col.dmg)
                      /\ (rule.locs = {} \/ col.loc \in rule.locs)
                      /\ (rule.dirs = {} \/ col.dir \in rule.dirs)
=============================================================================
