------------------------------- MODULE LossMC -------------------------------
(* A small loss model as a machine: detailed losses are written one by one, *)
(* then any sequence of scalings and aggregations follows.                  *)
EXTENDS Loss, TLC
CONSTANTS MaxV, Scales, R

Cols == << [dv |-> "Cost", loss |-> "a", dmg |-> "A", loc |-> 1, dir |-> 1],
           [dv |-> "Cost", loss |-> "replacement", dmg |-> "col", loc |-> 0, dir |-> 1],
           [dv |-> "Time", loss |-> "a", dmg |-> "A", loc |-> 1, dir |-> 1],
           [dv |-> "Time", loss |-> "b", dmg |-> "B", loc |-> 1, dir |-> 2],
           [dv |-> "Time", loss |-> "b", dmg |-> "B", loc |-> 2, dir |-> 1] >>
VARIABLES v, done, agg, nscaled
vars == <<v, done, agg, nscaled>>
Mk(vv) == [c \in 1..5 |-> [dv |-> Cols[c].dv, loss |-> Cols[c].loss, dmg |-> Cols[c].dmg, loc |-> Cols[c].loc,
                           dir |-> Cols[c].dir, v |-> [r \in 1..R |-> vv[c][r]]]]
Init == v = [c \in 1..5 |-> [r \in 1..R |-> 0]] /\ done = 0 /\ agg = <<>> /\ nscaled = 0
Write == /\ done < 5
         /\ \E x \in [1..R -> 0..MaxV] : v' = [v EXCEPT ![done + 1] = x]
         /\ done' = done + 1 /\ UNCHANGED <<agg, nscaled>>
Rules == {[dv |-> d, cmp |-> c, locs |-> l, dirs |-> {}, n |-> 2] :
             d \in {"Cost", "Time"}, c \in {"", "A", "B"}, l \in {{}, {1}, {1, 2}}}
Scale == /\ done = 5 /\ nscaled < Scales /\ nscaled' = nscaled + 1
         /\ \E rule \in Rules :
              v' = [c \in 1..5 |-> IF Matches(rule, Cols[c]) THEN [r \in 1..R |-> rule.n * v[c][r]] ELSE v[c]]
         /\ agg' = <<>> /\ UNCHANGED done
Agg(cols, r) == [cost |-> Sequential(Exclusive(cols), "Cost", r), seq |-> Sequential(Exclusive(cols), "Time", r),
                 par |-> Parallel(Exclusive(cols), "Time", r)]
Aggregate == /\ done = 5 /\ agg' = [r \in 1..R |-> Agg(Mk(v), r)] /\ UNCHANGED <<v, done, nscaled>>
Next == Write \/ Scale \/ Aggregate
Spec == Init /\ [][Next]_vars
Ordered == agg # <<>> => \A r \in 1..R : agg[r].par <= agg[r].seq /\ agg[r].seq <= 3 * agg[r].par
Exclusivity == agg # <<>> => \A r \in 1..R : v[2][r] > 0 => (agg[r].cost = v[2][r] /\ agg[r].seq = 0)
Plain == agg # <<>> => \A r \in 1..R : v[2][r] = 0 => agg[r].seq = v[3][r] + v[4][r] + v[5][r]
Idempotent == done = 5 => Exclusive(Exclusive(Mk(v))) = Exclusive(Mk(v))
Pure == [][Aggregate => v' = v]_vars
(* interpolation stays between its ordinates and meets them *)
ASSUME \A q \in 0..12 : LET y == Interp(<<2, 6, 8>>, <<10, 2, 4>>, q) IN y \in 2..10
ASSUME Interp(<<2, 6, 8>>, <<10, 2, 4>>, 2) = 10 /\ Interp(<<2, 6, 8>>, <<10, 2, 4>>, 6) = 2 /\ Interp(<<2, 6, 8>>, <<10, 2, 4>>, 9) = 4
Inv == Ordered /\ Exclusivity /\ Plain /\ Idempotent
=============================================================================
