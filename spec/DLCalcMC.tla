------------------------------ MODULE DLCalcMC ------------------------------
(* The calculation of one realization, step by step: damage from the demands, *)
(* the rules of the damage process one after the other, losses.               *)
EXTENDS DLCalc, Json
CONSTANTS Drifts, Residuals, Accelerations, Trace
Processes == {"FEMA P-58", "Hazus Earthquake - Buildings", "None"}
VARIABLES pc, x, ds, i, loss
vars == <<pc, x, ds, i, loss>>
Col(e, l, u) == [edp |-> e, loc |-> l, dir |-> 1, unit |-> u]
Comp(id, locs, limits) == [id |-> id, locs |-> locs, dirs |-> <<1>>, qty |-> 2, edp |-> "PID", base |-> "PID", offset |-> 0, directional |-> 1,
                           limits |-> limits, model |-> id]
None == [edp |-> "", base |-> "", median |-> 0]
Config(row, process, collapse, irreparable) ==
  [kind |-> "dl", samples |-> 1, cols |-> <<Col("PID", 1, "unitless"), Col("PID", 2, "unitless"), Col("RID", 1, "unitless"), Col("SA_1.0", 0, "mps2")>>,
   rows |-> <<row>>, limits |-> <<>>, clones |-> <<>>, inferred |-> <<>>, scaling |-> <<>>, offset |-> -1, multiplier |-> 12, comps |-> <<Comp("STR.A", <<1, 2>>, <<5, 15, 25, 35, 45>>), Comp("B", <<1>>, <<15>>)>>,
   sampled |-> 0, collapse |-> collapse, irreparable |-> irreparable, process |-> process, main |-> "STR.A", steps |-> <<>>, map |-> <<>>, automatic |-> 1,
   replacement |-> [Cost |-> 1000], user |-> [B |-> [Cost |-> <<7>>]] @@ ("STR.A" :> [Cost |-> <<1, 2, 3, 4, 5>>]), libraries |-> <<>>, occupied |-> "",
   dvs |-> <<"Cost">>, units |-> [Cost |-> "USD_2011"], damage |-> 1, losses |-> 1, settings |-> [AggregateColocatedComponentResults |-> 1, CondenseDS |-> 0]]
Rows == {<<a, b, r, s>> : a \in Drifts, b \in Drifts, r \in Residuals, s \in Accelerations}
Collapses == {None, [edp |-> "SA_1.0", base |-> "SA", median |-> 45], [edp |-> "PID", base |-> "PID", median |-> 35]}
Init == /\ pc = "demand" /\ ds = <<>> /\ i = 1 /\ loss = <<>>
        /\ x \in {Config(row, p, c, q) : row \in Rows, p \in Processes, c \in Collapses, q \in {0, 15}}
Assess == pc = "demand" /\ pc' = "process" /\ ds' = Initial(x) /\ UNCHANGED <<x, i, loss>>
Rule1 == /\ pc = "process" /\ i <= Len(Program30(x)) /\ i' = i + 1
         /\ LET e == Program30(x)[i] IN ds' = ApplySample(Groups(x), ds, e.src, e.byloc, e.ds, e.tgt, e.to)
         /\ UNCHANGED <<pc, x, loss>>
Value == /\ pc = "process" /\ i > Len(Program30(x)) /\ pc' = "done"
         /\ loss' = [g \in DOMAIN Groups(x) |-> Loss(x, Groups(x)[g], ds[1][g], "Cost")]
         /\ UNCHANGED <<x, ds, i>>
Next == Assess \/ Rule1 \/ Value
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Gs == Groups(x)
Is(id) == \E g \in DOMAIN Gs : Gs[g].cmp = id /\ ds[1][g] = 1
Own == {g \in DOMAIN Gs : Gs[g].cmp \in {"STR.A", "B"}}
Processed == x.process # "None"
Whole == Total(x, Gs, ds, "Cost")[1]
Invs ==
  /\ pc = "done" =>
       \* collapse and irreparable damage exclude each other and leave nothing else to repair
       /\ Processed => ~(Is("collapse") /\ Is("irreparable"))
       /\ Processed /\ (Is("collapse") \/ Is("irreparable")) => /\ \A g \in Own : ds[1][g] = NA /\ loss[g] = 0
                                                                /\ Whole = 1000000
       /\ ~Is("collapse") /\ ~Is("irreparable") => /\ ds[1] = [g \in DOMAIN Gs |-> IF ds[1][g] = NA THEN NA ELSE Initial(x)[1][g]]
                                                   /\ \A g \in Own : ds[1][g] # NA
                                                   /\ Whole = SumOver(Own, [g \in Own |-> loss[g]])
       /\ x.collapse.edp = "" /\ x.process # "Hazus Earthquake - Buildings" => ~Is("collapse")
       /\ x.irreparable = 0 => ~Is("irreparable")
       \* whatever would have been irreparable is not when it collapses
       /\ x.process = "FEMA P-58" => (Is("collapse") <=> \/ x.collapse.edp = "SA_1.0" /\ x.rows[1][4] > 45
                                                         \/ x.collapse.edp = "PID" /\ (x.rows[1][1] > 35 \/ x.rows[1][2] > 35))
       /\ Processed /\ x.irreparable # 0 => (Is("irreparable") <=> ~Is("collapse") /\ x.rows[1][3] > 15)
       /\ Damage(x) = ds
Emitting == Trace /\ pc = "demand" => PrintT("J!" \o ToJson([row |-> x.rows[1], process |-> x.process, collapse |-> x.collapse, irreparable |-> x.irreparable]))
=============================================================================
