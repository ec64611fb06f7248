------------------------- MODULE Calibration -------------------------
(* Settings of a demand calibration. A configuration is a sequence of      *)
(* sections [key, fam, cl, cu, tl, tu, unit, add]: the demands it is for,   *)
(* the family ("" when not given), censoring and truncation limits (0: not  *)
(* given) and additional dispersion (-1: not given), read in a unit of      *)
(* `unit` base units. A demand is a record [type, base]: the settings of    *)
(* SD apply to SD_0.5 and SD_1.0 unless they have their own.                *)
EXTENDS Integers, Sequences, FiniteSets

Applies(s, d) == s.key \in {"ALL", d.base, d.type}
Rank(s, d) == IF s.key = d.type THEN 3 ELSE IF s.key = d.base THEN 2 ELSE 1
Best(cfg, d, given(_)) ==
  LET c == {i \in DOMAIN cfg : Applies(cfg[i], d) /\ given(cfg[i])}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : Rank(cfg[j], d) <= Rank(cfg[i], d)

GFam(s) == s.fam # ""
GCl(s) == s.cl # 0
GCu(s) == s.cu # 0
GTl(s) == s.tl # 0
GTu(s) == s.tu # 0
GAdd(s) == s.add # -1
Normals == {"normal", "normal_cov", "normal_std"}
FamOf(cfg, d) == cfg[Best(cfg, d, GFam)].fam
AddOf(cfg, d) == LET i == Best(cfg, d, GAdd)
                 IN IF i = 0 THEN 0 ELSE IF FamOf(cfg, d) \in Normals THEN cfg[i].add * cfg[i].unit ELSE cfg[i].add
ClOf(cfg, d) == LET i == Best(cfg, d, GCl) IN IF i = 0 THEN 0 ELSE cfg[i].cl * cfg[i].unit
CuOf(cfg, d) == LET i == Best(cfg, d, GCu) IN IF i = 0 THEN 0 ELSE cfg[i].cu * cfg[i].unit
TlOf(cfg, d) == LET i == Best(cfg, d, GTl) IN IF i = 0 THEN 0 ELSE cfg[i].tl * cfg[i].unit
TuOf(cfg, d) == LET i == Best(cfg, d, GTu) IN IF i = 0 THEN 0 ELSE cfg[i].tu * cfg[i].unit
Settings(cfg, d) == [fam |-> FamOf(cfg, d), cl |-> ClOf(cfg, d), cu |-> CuOf(cfg, d),
                     tl |-> TlOf(cfg, d), tu |-> TuOf(cfg, d), add |-> AddOf(cfg, d)]

Inside(v, lo, hi) == (lo = 0 \/ v > lo) /\ (hi = 0 \/ v < hi)
(* realizations with every demand inside its limits, in their order *)
KeptSet(raw, eff) == {r \in DOMAIN raw : \A d \in DOMAIN eff :
                         Inside(raw[r][d], eff[d].cl, eff[d].cu) /\ Inside(raw[r][d], eff[d].tl, eff[d].tu)}
CensoredSet(raw, eff) == {r \in DOMAIN raw : \E d \in DOMAIN eff : ~Inside(raw[r][d], eff[d].cl, eff[d].cu)}
=============================================================================
