------------------------------- MODULE FitMC -------------------------------
(* Observations arrive one after the other, are kept or censored, and the     *)
(* data is rearranged after they were fitted. The fit is found by following   *)
(* the likelihood uphill.                                                     *)
EXTENDS Fit, TLC
CONSTANTS Values, Size, Most
VARIABLES d, f, step, moves
vars == <<d, f, step, moves>>
Limits == {[tl |-> None, tu |-> None, cl |-> None, cu |-> None], [tl |-> None, tu |-> None, cl |-> None, cu |-> 250],
           [tl |-> 0 - 400, tu |-> None, cl |-> None, cu |-> 250], [tl |-> 0 - 400, tu |-> 450, cl |-> None, cu |-> None],
           [tl |-> None, tu |-> 450, cl |-> 0 - 250, cu |-> 250]}
RECURSIVE Sum(_, _)
Sum(rows, i) == IF i = 0 THEN 0 ELSE rows[i] + Sum(rows, i - 1)
RECURSIVE Squares(_, _, _)
Squares(rows, m, i) == IF i = 0 THEN 0 ELSE Over((10 * rows[i] - m) * (10 * rows[i] - m), 100) + Squares(rows, m, i - 1)
Root(x) == CHOOSE r \in 0..800 : r * r <= x /\ (r + 1) * (r + 1) > x
Moments(x) == LET n == Len(x.rows) m == Over(10 * Sum(x.rows, n), n) IN [m |-> m, s |-> 10 * Root(Over(Squares(x.rows, m, n), n))]
Uphill(x, g) ==
  LET N == Len(x.rows) + x.lost e == Sides(x, g)
  IN [m |-> g.m + Over(g.s * Clip(e.one, 1000 * N), 1000 * N), s |-> g.s + Over(g.s * Clip(e.two, 600 * N), 1000 * N)]
Start == /\ step = "observe" /\ f = [m |-> 0, s |-> 1] /\ moves = 0
Init == \E l \in Limits : d = [rows |-> <<>>, lost |-> 0, tl |-> l.tl, tu |-> l.tu, cl |-> l.cl, cu |-> l.cu] /\ Start
(* equal observations in a row keep the state space small *)
Observe == /\ step = "observe" /\ Len(d.rows) + d.lost < Size
           /\ \E y \in Values :
                /\ ~Beyond(y, d.tl, d.tu)
                /\ IF Beyond(y, d.cl, d.cu) THEN d' = [d EXCEPT !.lost = @ + 1]
                   ELSE /\ (d.rows # <<>> => y >= d.rows[Len(d.rows)]) /\ d.lost = 0
                        /\ d' = [d EXCEPT !.rows = Append(@, y)]
           /\ UNCHANGED <<f, step, moves>>
(* enough observations that differ, most of them seen, and not piled up at a limit *)
Fittable == /\ Len(d.rows) + d.lost = Size /\ 3 * d.lost <= Size
            /\ Cardinality({d.rows[i] : i \in DOMAIN d.rows}) >= 3
            /\ LET g == Moments(d) IN (d.tl # None => 10 * d.tl < g.m - g.s - g.s \div 2) /\ (d.tu # None => 10 * d.tu > g.m + g.s + g.s \div 2)
Guess == step = "observe" /\ Fittable /\ f' = Moments(d) /\ step' = "climb" /\ UNCHANGED <<d, moves>>
Climb == /\ step = "climb"
         /\ LET h == Uphill(d, f) IN IF Magnitude(h.m - f.m) + Magnitude(h.s - f.s) <= 1 THEN step' = "fitted" /\ f' = f ELSE step' = step /\ f' = h
         /\ UNCHANGED <<d, moves>>
Again == step = "fitted" /\ moves < Most /\ moves' = moves + 1 /\ step' = step
Move == Again /\ d' = Moved(d, 150) /\ f' = [f EXCEPT !.m = @ + 1500]
Mirror == Again /\ d' = Mirrored(d) /\ f' = [f EXCEPT !.m = 0 - @]
Repeat == Again /\ Len(d.rows) <= Size /\ d' = Repeated(d) /\ f' = f
(* limits beyond which nothing was censored do not matter *)
Look == Again /\ d.lost = 0 /\ d.cu = None /\ d.cl = None /\ d' = [d EXCEPT !.cu = 100 + d.rows[Len(d.rows)]] /\ f' = f
Reorder == Again /\ d' = [d EXCEPT !.rows = [i \in DOMAIN @ |-> @[Len(@) + 1 - i]]] /\ f' = f
Next == Observe \/ Guess \/ Climb \/ Move \/ Mirror \/ Repeat \/ Look \/ Reorder
Spec == Init /\ [][Next]_vars
TypeOK == step \in {"observe", "climb", "fitted"} /\ d.lost \in Nat /\ f.s > 0
(* the fit solves the likelihood equations, whatever has been done to data and fit *)
Solved == step = "fitted" => Solves(d, f)
(* nothing near it does *)
Alone == step = "fitted" =>
  /\ ~Solves(d, [f EXCEPT !.m = @ + f.s \div 5]) /\ ~Solves(d, [f EXCEPT !.m = @ - f.s \div 5])
  /\ ~Solves(d, [f EXCEPT !.s = @ + f.s \div 5]) /\ ~Solves(d, [f EXCEPT !.s = @ - f.s \div 5])
(* without limits the fit has the moments of the data *)
Plain == (step = "fitted" /\ d.tl = None /\ d.tu = None /\ d.lost = 0) =>
  LET g == Moments(d) IN Magnitude(f.m - g.m) <= 2 + f.s \div 100 /\ Magnitude(f.s - g.s) <= 12 + f.s \div 100
(* the censored realizations pull the mean to their side *)
Pulled == (step = "fitted" /\ moves = 0 /\ d.lost > 0 /\ d.cl = None /\ d.tl = None /\ d.tu = None) => f.m > Moments(d).m
=============================================================================
