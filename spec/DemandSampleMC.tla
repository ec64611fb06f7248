------------------------ MODULE DemandSampleMC ------------------------
(* Cloning as the code does it, column by column, keeping positions and new  *)
(* names side by side; the table it ends with is the declared one.           *)
EXTENDS DemandSample, TLC
CONSTANTS Model, New, MaxTo, Ops
None == [src |-> "", to |-> <<>>]
TosOf == UNION {[1..n -> New] : n \in 0..MaxTo}
Configs == {<<[src |-> a, to |-> t]>> : a \in Model \cup {"X"}, t \in TosOf}
           \cup {<<[src |-> ab[1], to |-> t], [src |-> ab[2], to |-> u]>> :
                    ab \in {x \in Model \X (Model \cup {"X"}) : x[1] # x[2]}, t \in TosOf, u \in TosOf}
VARIABLES table, order, pos, cfg, phase, i, ops
vars == <<table, order, pos, cfg, phase, i, ops>>
(* order: names of the columns; pos: the values (origins) in those columns *)
MSeq == LET RECURSIVE f(_) f(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o f(S \ {x}) IN f(Model)
Start == [n \in Model |-> [src |-> n, unit |-> 1]]
Init == /\ table = Start /\ order = MSeq /\ pos = [j \in DOMAIN MSeq |-> Start[MSeq[j]]]
        /\ cfg = <<>> /\ phase = "idle" /\ i = 0 /\ ops = 0
Begin == /\ phase = "idle" /\ ops < Ops /\ ops' = ops + 1
         /\ \E c \in Configs :
              IF Rejected(table, c) THEN UNCHANGED <<table, order, pos, cfg, phase, i>>
              ELSE phase' = "copy" /\ cfg' = c /\ i' = 1 /\ order' = <<>> /\ pos' = <<>> /\ UNCHANGED table
(* the columns of the old table in some fixed order *)
OldSeq == LET RECURSIVE f(_) f(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o f(S \ {x}) IN f(DOMAIN table)
To(c) == LET m == {j \in DOMAIN cfg : cfg[j].src = c} IN cfg[CHOOSE j \in m : TRUE].to
Copy == /\ phase = "copy" /\ i <= Len(OldSeq)
        /\ LET c == OldSeq[i]
           IN IF c \notin Sources(cfg) THEN order' = Append(order, c) /\ pos' = Append(pos, table[c])
              ELSE order' = order \o To(c) /\ pos' = pos \o [j \in DOMAIN To(c) |-> table[c]]
        /\ i' = i + 1 /\ UNCHANGED <<table, cfg, phase, ops>>
Finish == /\ phase = "copy" /\ i > Len(OldSeq) /\ phase' = "idle"
          /\ table' = Clone(table, cfg) /\ cfg' = <<>> /\ i' = 0 /\ UNCHANGED <<order, pos, ops>>
Regenerate == /\ phase = "idle" /\ ops < Ops /\ ops' = ops + 1 /\ table' = Start
              /\ order' = MSeq /\ pos' = [j \in DOMAIN MSeq |-> Start[MSeq[j]]] /\ UNCHANGED <<cfg, phase, i>>
Next == Begin \/ Copy \/ Finish \/ Regenerate
SameTable == phase = "idle" => /\ ~Repeats(order)
                               /\ {order[j] : j \in DOMAIN order} = DOMAIN table
                               /\ \A j \in DOMAIN order : table[order[j]] = pos[j]
Origins == \A n \in DOMAIN table : table[n].src \in Model
=============================================================================
