------------------------------ MODULE Workflow ------------------------------
(* The life of one assessment: which version of every input is loaded, and   *)
(* which inputs every result present was computed from. A result is named    *)
(* by its tag, the nested sequence of everything it depends on; two results  *)
(* with the same tag have to be the same, whatever happened in between.      *)
(*                                                                           *)
(* s is a record                                                             *)
(*   dem  tag of the demand sample   <<"raw",v>> | <<"gen",v,k,cloned>>      *)
(*        | <<"rid",dem>> (residual drifts added)                            *)
(*   mdl  tag of the demand model    <<"mdl",v,k>> (sample v, settings k)    *)
(*   cmp  version of the asset model (0: none)                               *)
(*   frg  source each component took its damage parameters from (0: none)    *)
(*   dmg  tag of the damage sample   <<"dmg",dem,cmp,process,sources>>       *)
(*   map  <<version of the loss map, asset it was made for>>                 *)
(*   con  source each consequence model was taken from                       *)
(*   lss  tag of the losses          <<"lss",dmg,dem,map,sources,scaled>>    *)
EXTENDS Integers, Sequences, FiniteSets

None == <<"none">>

Comps == <<"A", "B", "C">>             \* damage state driven components
Conses == <<"CA", "CB", "CC", "L1", "L2">>

\* component positions that asset v holds (F, driven by a loss function, is in all)
InAsset(v) == IF v = 1 THEN {1, 2} ELSE {1, 3}

\* the consequence model the map names for component position p
Named(m, p) == IF m = 1 THEN p ELSE IF p = 1 THEN 2 ELSE IF p = 2 THEN 1 ELSE 3
Used(m, v) == {Named(m, p) : p \in InAsset(v)} \cup {IF m = 1 THEN 4 ELSE 5}

Empty == [dem |-> None, mdl |-> None, cmp |-> 0, frg |-> <<0, 0, 0>>, dmg |-> None,
          map |-> <<0, 0>>, con |-> <<0, 0, 0, 0, 0>>, lss |-> None]

Act(n, v, w) == [a |-> n, v |-> v, w |-> w]

Raw(t) == t[1] = "raw"

Enabled(s, x) ==
  CASE x.a = "Calibrate" -> s.dem # None /\ Raw(s.dem)
    [] x.a = "GenDemand" -> s.mdl # None
    [] x.a = "Rid"       -> s.dem # None /\ s.dem[1] # "rid"
    [] x.a = "Assets"    -> s.dem # None
    [] x.a = "Frag"      -> s.cmp # 0
    [] x.a = "Damage"    -> s.cmp # 0 /\ s.dem # None /\ \A p \in InAsset(s.cmp) : s.frg[p] # 0
    [] x.a = "Map"       -> s.cmp # 0
    [] x.a = "Cons"      -> s.map[1] # 0
    [] x.a = "Loss"      -> /\ s.dmg # None /\ s.cmp # 0 /\ s.map[1] # 0 /\ s.map[2] = s.cmp /\ s.dmg[3] = s.cmp
                            /\ \A c \in Used(s.map[1], s.cmp) : s.con[c] # 0
    [] x.a = "Scale"     -> s.lss # None
    [] x.a = "Agg"       -> s.lss # None /\ s.map = s.lss[4] /\ s.con = s.lss[5]
    [] x.a = "SaveLoad"  -> \/ x.v = 1 /\ s.dem # None
                            \/ x.v = 2 /\ s.cmp # 0
                            \/ x.v = 3 /\ s.dmg # None /\ s.dmg[3] = s.cmp
                            \/ x.v = 4 /\ s.mdl # None
    [] x.a = "Restart"   -> s.dem # None /\ s.cmp # 0
    [] OTHER             -> TRUE

Step(s, x) ==
  CASE x.a = "LoadDemand" -> [s EXCEPT !.dem = <<"raw", x.v>>]
    [] x.a = "Calibrate"  -> [s EXCEPT !.mdl = <<"mdl", s.dem[2], x.v>>]
    [] x.a = "GenDemand"  -> [s EXCEPT !.dem = <<"gen", s.mdl[2], s.mdl[3], x.v>>]
    [] x.a = "Rid"        -> [s EXCEPT !.dem = <<"rid", s.dem>>]
    [] x.a = "Assets"     -> [s EXCEPT !.cmp = x.v]
       \* a component takes its parameters from the first source that defines it; unused ones are dropped
    [] x.a = "Frag"       -> [s EXCEPT !.frg = [p \in 1..3 |-> IF p \notin InAsset(s.cmp) THEN 0
                                                              ELSE IF s.frg[p] # 0 THEN s.frg[p] ELSE x.v]]
    [] x.a = "Damage"     -> [s EXCEPT !.dmg = <<"dmg", s.dem, s.cmp, x.v,
                                                [p \in 1..3 |-> IF p \in InAsset(s.cmp) THEN s.frg[p] ELSE 0]>>]
    [] x.a = "Map"        -> [s EXCEPT !.map = <<x.v, s.cmp>>]
    [] x.a = "Cons"       -> [s EXCEPT !.con = [c \in 1..5 |-> IF c \notin Used(s.map[1], s.map[2]) THEN 0
                                                              ELSE IF s.con[c] # 0 THEN s.con[c] ELSE x.v]]
    [] x.a = "Loss"       -> [s EXCEPT !.lss = <<"lss", s.dmg, s.dem, s.map,
                                                [c \in 1..5 |-> IF c \in Used(s.map[1], s.cmp) THEN s.con[c] ELSE 0], <<>>>>]
    [] x.a = "Scale"      -> [s EXCEPT !.lss[6] = Append(s.lss[6], x.v)]
    [] x.a = "Restart"    -> [s EXCEPT !.frg = <<0, 0, 0>>, !.map = <<0, 0>>, !.con = <<0, 0, 0, 0, 0>>, !.lss = None,
                                       !.dmg = IF s.dmg # None /\ s.dmg[3] = s.cmp THEN s.dmg ELSE None]
    [] OTHER              -> s

\* what an action returns, by the tag of its value
Result(s, x) == CASE x.a = "Agg"   -> <<"agg", s.lss, x.v>>
                  [] x.a = "Other" -> <<"other", x.v>>
                  [] OTHER         -> None

\* the usual way to a complete calculation
Prefix == <<Act("LoadDemand", 1, 0), Act("Assets", 1, 0), Act("Frag", 1, 0), Act("Damage", 0, 0),
            Act("Map", 1, 0), Act("Cons", 1, 0), Act("Loss", 0, 0)>>

RECURSIVE RunActs(_, _)
RunActs(s, h) == IF h = <<>> THEN s ELSE RunActs(Step(s, Head(h)), Tail(h))
=============================================================================
