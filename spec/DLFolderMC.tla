----------------------------- MODULE DLFolderMC -----------------------------
(* Calculations one after another with one output folder: every calculation   *)
(* removes the results it knows of, saves tables, copies them to JSON files   *)
(* and removes the tables that were not asked for.                            *)
EXTENDS DLCalc, Json
CONSTANTS MaxRuns, Trace
On(S) == [o \in S |-> 1]
Base == [kind |-> "dl", losses |-> 1, damage |-> 1, detailed |-> 1, deselected |-> <<>>, given |-> 1, outputs |-> <<>>, override |-> 0, csv |-> 0, json |-> 0]
Part(out) == [Base EXCEPT !.outputs = out]
Configs == <<
  [Base EXCEPT !.given = 0],
  Part([Demand |-> On({"Sample"})]),
  Part([Damage |-> On({"GroupedSample"}), Format |-> [JSON |-> 1]]),
  Part([Loss |-> On({"AggregateSample", "AggregateStatistics"}), Format |-> [CSV |-> 1, JSON |-> 1]]),
  [Base EXCEPT !.given = 0, !.override = 1, !.csv = 1],
  [Base EXCEPT !.given = 0, !.override = 1, !.json = 1],
  [Part([Asset |-> On({"Sample", "Statistics"}), Format |-> [JSON |-> 1]]) EXCEPT !.override = 1],
  [Base EXCEPT !.kind = "auto"],
  [Base EXCEPT !.kind = "auto", !.detailed = 0],
  [Base EXCEPT !.kind = "auto", !.detailed = 0, !.losses = 0],
  [Base EXCEPT !.kind = "auto", !.deselected = [Demand |-> 1, Damage |-> 1, Loss |-> 0]],
  [Base EXCEPT !.kind = "auto", !.detailed = 0, !.deselected = [Demand |-> 0, Damage |-> 0, Loss |-> 1], !.override = 1, !.csv = 1] >>
VARIABLES pc, history, folder, out
vars == <<pc, history, folder, out>>
X == Configs[history[Len(history)]]
Init == pc = "idle" /\ history = <<>> /\ folder = <<>> /\ out = {}
Known30 == UNION {{File(k, o), Plain[k][o]} : <<k, o>> \in {<<k, o>> \in Kinds \X Options.Loss : o \in Options[k]}}
           \cup Always \cup {"DL_summary.json", "DL_summary_stats.json"}
Start == /\ pc \in {"idle", "done"} /\ Len(history) < MaxRuns /\ pc' = "clean" /\ out' = {}
         /\ \E c \in DOMAIN Configs : history' = Append(history, c)
         /\ UNCHANGED folder
Clean == /\ pc = "clean" /\ pc' = "save" /\ folder' = [f \in DOMAIN folder \ Known30 |-> folder[f]] /\ UNCHANGED <<history, out>>
Save == /\ pc = "save" /\ pc' = "copy"
        /\ out' = {File(n[1], n[2]) : n \in Names(X)} \cup Always
        /\ folder' = [f \in DOMAIN folder \cup out' |-> IF f \in out' THEN Len(history) ELSE folder[f]]
        /\ UNCHANGED history
Extension(f) == SubSeq(f, 1, Len(f) - 3) \o "json"
Copy == /\ pc = "copy" /\ pc' = "drop"
        /\ LET new == IF Json30(X) THEN {Extension(f) : f \in out} ELSE {}
           IN folder' = [f \in DOMAIN folder \cup new |-> IF f \in new THEN Len(history) ELSE folder[f]]
        /\ UNCHANGED <<history, out>>
Drop == /\ pc = "drop" /\ pc' = "done"
        /\ folder' = [f \in DOMAIN folder \ (IF Csv(X) THEN {} ELSE out \ Always) |-> folder[f]]
        /\ UNCHANGED <<history, out>>
Next == Start \/ Clean \/ Save \/ Copy \/ Drop
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the folder holds the results of the last calculation, all of them and nothing else
Fresh == pc = "done" => DOMAIN folder = Files(X) /\ \A f \in DOMAIN folder : folder[f] = Len(history)
\* files of different tables are different
Distinct == Cardinality(Known30) = 2 * (2 + 2 + 4 + 6) + 4
Invs == Fresh /\ Distinct
Emitting == Trace /\ pc = "done" => PrintT("J!" \o ToJson([history |-> history]))
=============================================================================
