------------------------------- MODULE UnitsMC -------------------------------
(* A calculation that reads every input in some unit and reports in another. *)
EXTENDS Units, TLC
CONSTANTS F, MaxV
Families == {"normal", "lognormal", "normal_std", "uniform", "deterministic"}
ASSUME \A fam \in Families, f \in F, a \in 0..MaxV, b \in 0..2, z \in 0..2 :
         Quantile(fam, Scaled(fam, f, <<a, b>>), z) = f * Quantile(fam, <<a, b>>, z)
VARIABLES phys, unit, base, stage
vars == <<phys, unit, base, stage>>
Names == {"demand", "capacity", "quantity", "cost"}
Nil == [x \in Names |-> 0]
(* phys: what is meant; unit: factor the input is stated in (times its unit of reference for the cost) *)
Init == /\ phys \in [Names -> 0..MaxV] /\ unit \in [Names -> F] /\ base = Nil /\ stage = "stated"
(* inputs are whole multiples of their unit; cost is per unit of quantity *)
Stated(x) == phys[x]
Convert == /\ stage = "stated" /\ stage' = "internal"
           /\ base' = [x \in Names |-> unit[x] * Stated(x)]
           /\ UNCHANGED <<phys, unit>>
Next == Convert
Spec == Init /\ [][Next]_vars
Damaged(b) == b["capacity"] < b["demand"]
(* restating an input in another unit leaves the outcome: phys*unit is what counts *)
Invariance == stage = "internal" =>
   \A v \in F, x \in Names : (phys[x] * unit[x]) % v = 0 =>
      LET restated == [base EXCEPT ![x] = v * ((phys[x] * unit[x]) \div v)]
      IN Damaged(restated) = Damaged(base) /\ restated["quantity"] * restated["cost"] = base["quantity"] * base["cost"]
Inv == Invariance
=============================================================================
