------------------------ MODULE CalibrationMC ------------------------
(* The calibration as it proceeds: the sections are applied one after the   *)
(* other, each overwriting what it gives; then realizations are removed and *)
(* the remaining ones are described. Whatever the order in which sections   *)
(* are listed and whatever was calibrated before, the outcome is the one    *)
(* declared in Calibration.                                                 *)
EXTENDS Calibration, TLC
CONSTANTS Fams, Lows, Highs, UnitSet, Adds, Rounds
Demands == <<[type |-> "SD_1", base |-> "SD"], [type |-> "SD_2", base |-> "SD"], [type |-> "PFD", base |-> "PFD"]>>
Raw0 == <<<<3, 40, 5>>, <<15, 6, 30>>, <<60, 25, 2>>, <<8, 9, 12>>>>
Section(key, fams) == [key : {key}, fam : fams, cl : Lows, cu : {0}, tl : {0}, tu : Highs, unit : UnitSet, add : Adds \cup {-1}]
Full == {s \in Section("SD_1", {"", "normal"}) : s.cl = 0}
Base == Section("SD", {""} \cup Fams)
All == Section("ALL", Fams)
Plain == [key |-> "ALL", fam |-> "lognormal", cl |-> 0, cu |-> 0, tl |-> 0, tu |-> 0, unit |-> 1, add |-> -1]
Configs == {<<a>> : a \in All} \cup {<<a, b>> : a \in All, b \in Base} \cup {<<b, a>> : a \in All, b \in Base}
           \cup {<<f, a, b>> : a \in All, b \in Base, f \in Full}
Few == {<<Plain>>, <<[Plain EXCEPT !.key = "SD", !.cl = 1, !.unit = 10], Plain>>}
None == [fam |-> "", cl |-> 0, cu |-> 0, tl |-> 0, tu |-> 0, add |-> 0]
VARIABLES raw, cfg, phase, todo, eff, kept, model, round
vars == <<raw, cfg, phase, todo, eff, kept, model, round>>
Init == /\ raw = Raw0 /\ cfg \in Configs /\ phase = "parse" /\ round = 1
        /\ todo = DOMAIN cfg
        /\ eff = [d \in DOMAIN Demands |-> None]
        /\ kept = {} /\ model = <<>>
Order(s) == IF s.key = "ALL" THEN 1 ELSE IF s.key = "SD" THEN 2 ELSE 3
Merge(e, s) == LET fam == IF s.fam = "" THEN e.fam ELSE s.fam
               IN [fam |-> fam,
                   cl |-> IF s.cl = 0 THEN e.cl ELSE s.cl * s.unit, cu |-> IF s.cu = 0 THEN e.cu ELSE s.cu * s.unit,
                   tl |-> IF s.tl = 0 THEN e.tl ELSE s.tl * s.unit, tu |-> IF s.tu = 0 THEN e.tu ELSE s.tu * s.unit,
                   add |-> IF s.add = -1 THEN e.add ELSE IF fam \in Normals THEN s.add * s.unit ELSE s.add]
Parse(i) == /\ phase = "parse" /\ i \in todo
            /\ \A j \in todo : Order(cfg[i]) <= Order(cfg[j])
            /\ eff' = [d \in DOMAIN Demands |-> IF Applies(cfg[i], Demands[d]) THEN Merge(eff[d], cfg[i]) ELSE eff[d]]
            /\ todo' = todo \ {i}
            /\ UNCHANGED <<raw, cfg, phase, kept, model, round>>
Censor == /\ phase = "parse" /\ todo = {} /\ phase' = "censored"
          /\ kept' = {r \in DOMAIN raw : \A d \in DOMAIN eff : Inside(raw[r][d], eff[d].cl, eff[d].cu)}
          /\ UNCHANGED <<raw, cfg, todo, eff, model, round>>
Truncate == /\ phase = "censored" /\ phase' = "truncated"
            /\ kept' = {r \in kept : \A d \in DOMAIN eff : Inside(raw[r][d], eff[d].tl, eff[d].tu)}
            /\ UNCHANGED <<raw, cfg, todo, eff, model, round>>
Fit == /\ phase = "truncated" /\ phase' = "done"
       /\ model' = <<eff, kept>>
       /\ UNCHANGED <<raw, cfg, todo, eff, kept, round>>
Again == /\ phase = "done" /\ round < Rounds /\ round' = round + 1
         /\ cfg' \in Few /\ todo' = DOMAIN cfg' /\ phase' = "parse"
         /\ eff' = [d \in DOMAIN Demands |-> None]
         /\ UNCHANGED <<raw, kept, model>>
Next == (\E i \in 1..3 : Parse(i)) \/ Censor \/ Truncate \/ Fit \/ Again
(* the extra dispersion has no unit of its own: only consistent families inherit it *)
Comparable(d) == \A i, j \in DOMAIN cfg : Applies(cfg[i], Demands[d]) /\ Applies(cfg[j], Demands[d]) /\ cfg[i].fam # "" /\ cfg[j].fam # ""
                     => (cfg[i].fam \in Normals <=> cfg[j].fam \in Normals)
Declared(d) == Settings(cfg, Demands[d])
SettingsOk == phase = "done" => \A d \in DOMAIN Demands :
                 LET e == model[1][d] s == Declared(d)
                 IN [e EXCEPT !.add = 0] = [s EXCEPT !.add = 0] /\ (Comparable(d) => e.add = s.add)
KeptOk == phase = "done" => model[2] = KeptSet(raw, [d \in DOMAIN Demands |-> Declared(d)])
RawOk == raw = Raw0
(* censoring alone never removes a realization that is inside every limit *)
CensorOk == phase \in {"censored", "truncated"} => kept \cap CensoredSet(raw, eff) = {}
=============================================================================
