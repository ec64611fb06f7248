------------------------------ MODULE LossCombo ------------------------------
(* Combination of losses (property C11).                                    *)
(* cols: sequence of [dv, loss, dmg, loc, dir, uid, v]; v in whole units.    *)
(* combos: sequence of [dv, cmps, doms, tab]: cmps the components in the     *)
(* order of the table dimensions, doms[m] the grid of dimension m and tab    *)
(* the table flattened with the last dimension fastest.                     *)
(* A combination acts, one after the other in the listed order, on every     *)
(* place where all of its components have losses not combined before.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE FlatIndex(_, _, _)
(* idx, dims: sequences; position of idx in the flattened table *)
FlatIndex(idx, dims, acc) == IF idx = <<>> THEN acc + 1
                             ELSE FlatIndex(Tail(idx), Tail(dims), acc * Head(dims) + (Head(idx) - 1))
At(cb, idx) == cb.tab[FlatIndex(idx, [m \in DOMAIN cb.doms |-> Len(cb.doms[m])], 0)]
(* cell of x in a grid *)
Cell(g, x) == IF x >= g[Len(g)] THEN Len(g) - 1 ELSE CHOOSE i \in 1..(Len(g) - 1) : g[i] <= x /\ x < g[i + 1]
Inside(g, x) == g[1] <= x /\ x <= g[Len(g)]

(* multilinear interpolation: numerator and denominator *)
Den(cb, xs) == Prod([m \in DOMAIN xs |-> LET i == Cell(cb.doms[m], xs[m]) IN cb.doms[m][i + 1] - cb.doms[m][i]])
Num(cb, xs) ==
  LET cell == [m \in DOMAIN xs |-> Cell(cb.doms[m], xs[m])]
      corners == [DOMAIN xs -> {0, 1}]
      weight(c) == Prod([m \in DOMAIN xs |->
                           IF c[m] = 1 THEN xs[m] - cb.doms[m][cell[m]] ELSE cb.doms[m][cell[m] + 1] - xs[m]])
  IN MapThenSumSet(LAMBDA c : weight(c) * At(cb, [m \in DOMAIN xs |-> cell[m] + c[m]]), corners)
(* value in thousandths *)
Value(cb, xs) == (1000 * Num(cb, xs)) \div Den(cb, xs)

Places(cols, dv) == {<<cols[c].loc, cols[c].dir, cols[c].uid>> : c \in {x \in DOMAIN cols : cols[x].dv = dv}}
Members(cols, free, cb, pl) ==
  [m \in DOMAIN cb.cmps |-> {c \in free : /\ cols[c].dv = cb.dv /\ cols[c].dmg = cb.cmps[m]
                                          /\ <<cols[c].loc, cols[c].dir, cols[c].uid>> = pl}]
Complete(cols, free, cb, pl) == \A m \in DOMAIN cb.cmps : Members(cols, free, cb, pl)[m] # {}

(* one combination: what it consumes and what it yields *)
Sites(cols, free, cb) == {pl \in Places(cols, cb.dv) : Complete(cols, free, cb, pl)}
Used(cols, free, cb) == UNION {UNION {Members(cols, free, cb, pl)[m] : m \in DOMAIN cb.cmps} : pl \in Sites(cols, free, cb)}
Yield(cols, free, cb, pl, r) ==
  LET mem == Members(cols, free, cb, pl)
  IN Value(cb, [m \in DOMAIN cb.cmps |-> MapThenSumSet(LAMBDA c : cols[c].v[r], mem[m])])

(* all of them in order: the columns left over and the combined losses *)
(* made: set of [dv, loc, dir, uid, cb, v] with v in thousandths *)
RECURSIVE Run(_, _, _, _, _)
Run(cols, combos, n, free, made) ==
  IF combos = <<>> THEN [free |-> free, made |-> made]
  ELSE LET cb == Head(combos)
           new == {[dv |-> cb.dv, loc |-> pl[1], dir |-> pl[2], uid |-> pl[3], cb |-> Len(combos),
                    v |-> [r \in 1..n |-> Yield(cols, free, cb, pl, r)]] : pl \in Sites(cols, free, cb)}
       IN Run(cols, Tail(combos), n, free \ Used(cols, free, cb), made \cup new)
Combined(cols, combos, n) == Run(cols, combos, n, DOMAIN cols, {})

(* thousandths *)
SumAt(cols, res, dv, locs, r) ==
  1000 * MapThenSumSet(LAMBDA c : cols[c].v[r], {c \in res.free : cols[c].dv = dv /\ cols[c].loc \in locs})
  + MapThenSumSet(LAMBDA x : x.v[r], {x \in res.made : x.dv = dv /\ x.loc \in locs})
Locs(cols, dv) == {cols[c].loc : c \in {x \in DOMAIN cols : cols[x].dv = dv}}
=============================================================================
