---------------------------- MODULE UncertainMC ----------------------------
(* Values are drawn stratum by stratum, anywhere in the stratum; then demands *)
(* are compared with them.                                                    *)
EXTENDS Uncertain
CONSTANTS N, Places, Demands
VARIABLES drawn, demand
vars == <<drawn, demand>>
(* places are hundredths of a stratum, so values are millionths / (100 N) *)
At(i) == (1000000 * (100 * (i - 1) + drawn[i])) \div (100 * N)
Count(p) == Cardinality({i \in DOMAIN drawn : At(i) < p})
Init == drawn = <<>> /\ demand = 0 - 9999
Draw == Len(drawn) < N /\ \E v \in Places : drawn' = Append(drawn, v) /\ UNCHANGED demand
Compare == Len(drawn) = N /\ \E z \in Demands : demand' = z - 2000 /\ UNCHANGED drawn
Next == Draw \/ Compare
Spec == Init /\ [][Next]_vars
InStrata == \A i \in DOMAIN drawn : At(i) * N >= (i - 1) * 1000000 - N /\ At(i) * N <= i * 1000000
(* wherever in their strata the values are, the number of those below a demand is known up to one *)
Known == (Len(drawn) = N /\ demand # 0 - 9999) => Fits(Count(Cum(demand)), N, Cum(demand))
(* and a greater demand never has fewer *)
Monotone == (Len(drawn) = N /\ demand # 0 - 9999) => Count(Cum(demand)) <= Count(Cum(demand + 100))
=============================================================================
