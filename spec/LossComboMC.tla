----------------------------- MODULE LossComboMC -----------------------------
EXTENDS LossCombo, TLC
CONSTANTS MaxV
Grid == <<0, 2, 3>>
Asym == <<0, 2, 3,  2, 3, 3,  3, 3, 3>>          \* axes 0,2,3 along both
Skew == <<0, 1, 3,  2, 2, 3,  3, 3, 3>>
Plus == <<0, 2, 3,  2, 4, 5,  3, 5, 6>>
Tabs == {Asym, Skew, Plus}
Keys == << <<"A", 1>>, <<"B", 1>>, <<"C", 1>>, <<"A", 2>>, <<"B", 2>> >>
CB(dv, a, b, t) == [dv |-> dv, cmps |-> <<a, b>>, doms |-> <<Grid, Grid>>, tab |-> t]
VARIABLES cols, todo, free, made
vars == <<cols, todo, free, made>>
Init == /\ \E v \in [1..5 -> 0..MaxV] : cols = [c \in 1..5 |->
             [dv |-> "Cost", dmg |-> Keys[c][1], loc |-> Keys[c][2], dir |-> 1, uid |-> 0, v |-> <<v[c]>>]]
        /\ \E pa \in {<<"A", "B">>, <<"B", "A">>, <<"A", "C">>, <<"C", "B">>}, t \in Tabs :
              \/ todo = <<CB("Cost", pa[1], pa[2], t)>>
              \/ \E pb \in {<<"A", "B">>, <<"B", "C">>, <<"A", "D">>} : todo = <<CB("Cost", pa[1], pa[2], t), CB("Cost", pb[1], pb[2], Plus)>>
        /\ free = 1..5 /\ made = {}
Combine == /\ todo # <<>>
           /\ LET cb == Head(todo) IN
                /\ made' = made \cup {[dv |-> cb.dv, loc |-> pl[1], dir |-> pl[2], uid |-> pl[3], cb |-> Len(todo),
                                       v |-> <<Yield(cols, free, cb, pl, 1)>>] : pl \in Sites(cols, free, cb)}
                /\ free' = free \ Used(cols, free, cb)
           /\ todo' = Tail(todo) /\ UNCHANGED cols
Spec == Init /\ [][Combine]_vars
(* every loss is either left alone or in exactly one combination *)
Once == Cardinality(free) + 2 * Cardinality(made) = 5
(* a table is honoured at its nodes and on its axes *)
Nodes == \A t \in Tabs : LET cb == CB("Cost", "A", "B", t) IN
           /\ \A i, j \in 1..3 : Value(cb, <<Grid[i], Grid[j]>>) = 1000 * t[3 * (i - 1) + j]
           /\ \A x \in 0..3 : Value(CB("Cost", "A", "B", Plus), <<x, 2>>) = 1000 * (x + 2)
ASSUME Nodes
(* transposing the table and the order of its components changes nothing *)
Transpose(t) == [i \in 1..9 |-> t[3 * ((i - 1) % 3) + ((i - 1) \div 3) + 1]]
Symmetric == \A x, y \in 0..3 : \A t \in Tabs :
               Value(CB("Cost", "A", "B", t), <<x, y>>) = Value(CB("Cost", "B", "A", Transpose(t)), <<y, x>>)
ASSUME Symmetric
(* with the table of plain addition nothing changes; the run equals the recursive definition *)
Res == Combined(cols, todo, 1)
Whole == \A l \in {1, 2} : todo = <<>> => SumAt(cols, [free |-> free, made |-> made], "Cost", {l}, 1) <=
             1000 * MapThenSumSet(LAMBDA c : cols[c].v[1], {c \in 1..5 : cols[c].loc = l})
Agree == (free = 1..5 /\ made = {} /\ \A i \in DOMAIN todo : todo[i].tab = Plus) =>
            SumAt(cols, Res, "Cost", {1, 2}, 1) = 1000 * MapThenSumSet(LAMBDA c : cols[c].v[1], 1..5)
Untouched == \A c \in 1..5 : c \notin free => cols[c].dmg \in {"A", "B", "C"}
Inv == Once /\ Whole /\ Agree /\ Untouched
=============================================================================
