------------------------------ MODULE DemandMC ------------------------------
(* The lookup itself, for every small sample, placement and option.         *)
EXTENDS Demand, TLC
CONSTANTS Vals, MaxLoc

Places == {<<l, d>> : l \in 0..MaxLoc, d \in 1..2}
Term == [type : {"A"}, sub : {"", "1"}, off : {-1, 0, 1}, directional : {0, 1}]
Opts == {[offset |-> o, mult |-> m] :
           o \in {<<>>, <<[type |-> "A", v |-> -1]>>, <<[type |-> "B", v |-> 1]>>},
           m \in {<<[type |-> "ALL", v |-> 12]>>,
                  <<[type |-> "A", v |-> 8], [type |-> "ALL", v |-> 12]>>,
                  <<[type |-> "A_1", v |-> 10], [type |-> "ALL", v |-> 20]>>}}
VARIABLES have, val, term, opts, loc, dir, out
vars == <<have, val, term, opts, loc, dir, out>>

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Sample == [i \in DOMAIN ToSeq(have) |->
             [type |-> "A", loc |-> ToSeq(have)[i][1], dir |-> ToSeq(have)[i][2],
              v |-> <<val[ToSeq(have)[i]]>>]]
Init == /\ have \in SUBSET Places /\ val \in [have -> Vals]
        /\ term \in Term /\ opts \in Opts /\ loc \in 0..MaxLoc /\ dir \in 0..2 /\ out = <<>>
Eval == /\ out = <<>>
        /\ out' = IF Available(Sample, term, loc, dir, opts)
                  THEN <<TermValue(Sample, term, loc, dir, opts, 1)>> ELSE <<-1>>
        /\ UNCHANGED <<have, val, term, opts, loc, dir>>
Next == Eval
Spec == Init /\ [][Next]_vars

L == LocOf(term, loc, opts)
M == Multiplier(term, dir, opts)
(* only the demand of the own location can be seen, and of the own direction when directional *)
Local == (out # <<>> /\ out # <<-1>>) =>
  \E p \in have : p[1] = L /\ out[1] = val[p] * M /\ (term.directional = 1 /\ dir # 0 => p[2] = dir)
Governs == (out # <<>> /\ out # <<-1>> /\ (term.directional = 0 \/ dir = 0)) =>
  \A p \in have : p[1] = L => val[p] * M <= out[1]
Refused == out = <<-1>> =>
  \/ term.sub # "" \/ L < 0 \/ ~ \E p \in have : p[1] = L /\ (term.directional = 0 \/ dir = 0 \/ p[2] = dir)
DirectionalPlain == (term.directional = 1 /\ dir # 0) => M = 10
Inv == Local /\ Governs /\ Refused /\ DirectionalPlain
=============================================================================
