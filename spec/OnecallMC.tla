----------------------------- MODULE OnecallMC -----------------------------
(* The three calls as a machine on one object: every call replaces what the *)
(* earlier one of its kind left, stage by stage. Checked: the outcome is    *)
(* that of the arguments of the last calls alone.                           *)
EXTENDS Onecall

CONSTANTS Values, Rounds

VARIABLES x, y, sample, ds, dam, ls, stage, calls
vars == <<x, y, sample, ds, dam, ls, stage, calls>>

Comps == <<[cmp |-> "A", term |-> [type |-> "PID", sub |-> "", off |-> 0, directional |-> 1], caps |-> <<15, 25>>],
           [cmp |-> "excessiveRID", term |-> [type |-> "RID", sub |-> "", off |-> 0, directional |-> 1], caps |-> <<1>>],
           [cmp |-> "X", term |-> [type |-> "ONE", sub |-> "", off |-> 0, directional |-> 0], caps |-> <<15>>]>>
One(a) == [t |-> "one", a |-> a, b |-> 0, parts |-> <<>>]
Row(c, e) == [cmp |-> c, loc |-> e, dir |-> One(1), q |-> 2]
All == [t |-> "all", a |-> 0, b |-> 0, parts |-> <<>>]
Rule(byloc) == <<[num |-> 1, src |-> "A", byloc |-> byloc, events |-> <<[ds |-> 2, targets |-> <<[cmp |-> "ALL", to |-> 1]>>]>>]>>
Descriptions ==
  {[n |-> n, stories |-> 2,
    cols |-> <<[type |-> "PID", loc |-> 1, dir |-> 1, v |-> <<a, b>>], [type |-> "PID", loc |-> 2, dir |-> 1, v |-> <<b, b>>]>>,
    rid |-> rid, extra |-> IF e = 0 THEN <<>> ELSE <<[type |-> "ONE", loc |-> 1, dir |-> 2, v |-> [r \in 1..n |-> e]]>>,
    comps |-> Comps,
    rows |-> <<Row("A", All)>> \o (IF rid = "none" THEN <<>> ELSE <<Row("excessiveRID", All)>>) \o (IF e = 0 THEN <<>> ELSE <<Row("X", One(1))>>),
    factors |-> f, rules |-> p] :
     n \in {1, 3}, a \in Values, b \in Values, rid \in {"none", "elastic", "plastic"}, e \in {0, 20},
     f \in {<<>>, <<[cmp |-> "A", loc |-> 2, dir |-> 1, f |-> 3]>>}, p \in {<<>>, Rule(TRUE), Rule(FALSE)}}
Params == <<[cons |-> "A", dv |-> "Cost", states |-> <<[ds |-> 1, v |-> 5], [ds |-> 2, v |-> 7]>>],
            [cons |-> "excessiveRID", dv |-> "Cost", states |-> <<[ds |-> 1, v |-> 11]>>],
            [cons |-> "R", dv |-> "Cost", states |-> <<[ds |-> 1, v |-> 13], [ds |-> 2, v |-> 13]>>],
            [cons |-> "X", dv |-> "Time", states |-> <<[ds |-> 1, v |-> 3]>>]>>
LossArgs == {[dvs |-> d, map |-> m, policy |-> p, params |-> Params] :
              d \in {<<"Cost">>, <<"Time", "Cost">>}, m \in {<<>>, <<[cmp |-> "A", cons |-> "R"]>>}, p \in {"none", "fill", "fill_all"}}

Nothing == [n |-> 0]
Init == /\ x = Nothing /\ y = Nothing /\ sample = <<>> /\ ds = <<>> /\ dam = <<>> /\ ls = <<>> /\ stage = "idle" /\ calls = 0
Describe == /\ stage = "idle" /\ calls < Rounds
            /\ x' \in Descriptions
            /\ stage' = "called" /\ calls' = calls + 1 /\ UNCHANGED <<y, sample, ds, dam, ls>>
Sampled == /\ stage = "called" /\ sample' = Drawn(x) /\ stage' = "sampled" /\ UNCHANGED <<x, y, ds, dam, ls, calls>>
Inferred == /\ stage = "sampled" /\ sample' = sample \o Residual(x, sample) /\ stage' = "inferred" /\ UNCHANGED <<x, y, ds, dam, ls, calls>>
Added == /\ stage = "inferred" /\ sample' = sample \o x.extra /\ stage' = "demand" /\ ds' = <<>> /\ UNCHANGED <<x, y, dam, ls, calls>>
(* one group at a time *)
Evaluated == /\ stage = "demand" /\ Len(ds) < Len(GroupsOf(x))
             /\ ds' = Append(ds, [r \in 1..x.n |-> DSOf(x, sample, GroupsOf(x)[Len(ds) + 1], r)])
             /\ UNCHANGED <<x, y, sample, dam, ls, stage, calls>>
Processed == /\ stage = "demand" /\ Len(ds) = Len(GroupsOf(x))
             /\ dam' = Steps(GroupsOf(x), [r \in 1..x.n |-> [g \in DOMAIN ds |-> ds[g][r]]], P!Program(x.rules))
             /\ stage' = "damaged" /\ UNCHANGED <<x, y, sample, ds, ls, calls>>
Lost == /\ stage = "damaged" /\ y' \in {a \in LossArgs : MapValid(a)}
        /\ ls' = Losses(x, y', dam) /\ stage' = "idle" /\ UNCHANGED <<x, sample, ds, dam, calls>>
Refused == /\ stage = "damaged" /\ \E a \in LossArgs : ~MapValid(a) /\ stage' = "idle"
           /\ UNCHANGED <<x, y, sample, ds, dam, ls, calls>>
Next == Describe \/ Sampled \/ Inferred \/ Added \/ Evaluated \/ Processed \/ Lost \/ Refused
Spec == Init /\ [][Next]_vars

AsDescribed == stage = "damaged" => dam = Damage(x) /\ sample = Demands(x)
(* the optional arguments add demands and change none *)
OnlyAdds == stage \in {"inferred", "demand", "damaged"} => SubSeq(sample, 1, Len(x.cols)) = Drawn(x)
ElasticSpares == stage = "damaged" /\ x.rid = "elastic" /\ x.rules = <<>> =>
   \A g \in DOMAIN GroupsOf(x) : GroupsOf(x)[g].cmp = "excessiveRID" => \A r \in 1..x.n : dam[r][g] = 0
(* stronger components are not damaged more *)
Stronger == stage = "damaged" /\ x.rules = <<>> => \A g \in DOMAIN GroupsOf(x) : \A r \in 1..x.n :
   DSOf(x, sample, GroupsOf(x)[g], r) <= DSOf([x EXCEPT !.factors = <<>>], sample, GroupsOf(x)[g], r)
(* filling the map completely adds losses, and only of excessive residual drifts *)
PolicyLaw == stage = "damaged" => \A m \in {<<>>, <<[cmp |-> "A", cons |-> "R"]>>} :
   LET a(p) == Losses(x, [dvs |-> <<"Cost">>, map |-> m, policy |-> p, params |-> Params], dam)
   IN \A c \in DOMAIN a("fill") : \A r \in 1..x.n :
        /\ a("fill")[c].v[r] <= a("fill_all")[c].v[r]
        /\ (a("fill")[c].v[r] # a("fill_all")[c].v[r] => a("fill")[c].cmp = "excessiveRID")
=============================================================================
