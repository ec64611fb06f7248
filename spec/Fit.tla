-------------------------------- MODULE Fit --------------------------------
(* What it means to fit a normal distribution to observations, of which some  *)
(* were censored (only their number is known) and which come from a range     *)
(* that is truncated. Observations and limits are integer coordinates of the  *)
(* space in which the distribution is normal: thousandths of the logarithm    *)
(* for lognormal demands, thousandths of some base value for normal ones. A   *)
(* fit is [m, s]: mean and standard deviation in tenths of a coordinate.      *)
(* The fit of the greatest likelihood solves the two likelihood equations;    *)
(* S1 and S2 are their left sides times the number of realizations, in        *)
(* thousandths. None is the limit that is not there.                          *)
EXTENDS Integers, Sequences, FiniteSets, NormalTable
None == 0 - 1000000
Clip(x, b) == IF x > b THEN b ELSE IF x < 0 - b THEN 0 - b ELSE x
Std(y, f) == Clip(Over((10 * y - f.m) * 1000, f.s), 20000)
End(y, f, c) == IF y = None THEN [c |-> c, p |-> 0, q |-> 0]
                ELSE LET z == Std(y, f) IN [c |-> Cum(z), p |-> Pdf(z), q |-> Over(Clip(z, 5000) * Pdf(z), 1000)]
Within(lo, hi, f) == LET a == End(lo, f, 0) b == End(hi, f, 1000000) IN [mass |-> b.c - a.c, p |-> b.p - a.p, q |-> b.q - a.q]
RECURSIVE Total(_, _, _, _)
Total(rows, f, k, i) == IF i = 0 THEN 0
  ELSE LET z == Std(rows[i], f) IN (IF k = 1 THEN z ELSE Over(z * z, 1000)) + Total(rows, f, k, i - 1)
(* d: [rows, lost, tl, tu, cl, cu]; lost is the number of censored realizations *)
Inner(a, b, c) == IF a = None THEN b ELSE IF b = None THEN a ELSE IF c = 1 THEN (IF a > b THEN a ELSE b) ELSE (IF a < b THEN a ELSE b)
(* the left sides of the likelihood equations, or Nothing when the fit leaves  *)
(* no room for what was observed                                              *)
Nothing == [one |-> 1000000, two |-> 1000000]
Sides(d, f) ==
  LET n == Len(d.rows) N == n + d.lost
      t == Within(d.tl, d.tu, f)
      c == Within(Inner(d.cl, d.tl, 1), Inner(d.cu, d.tu, 0), f)
      out == t.mass - c.mass
  IN IF f.s <= 0 \/ t.mass < 1000 \/ (d.lost > 0 /\ out < 100) THEN Nothing
     ELSE [one |-> Total(d.rows, f, 1, n) + N * Over(t.p * 1000, t.mass)
                   - (IF d.lost = 0 THEN 0 ELSE d.lost * Over((t.p - c.p) * 1000, out)),
           two |-> Total(d.rows, f, 2, n) - 1000 * n + N * Over(t.q * 1000, t.mass)
                   - (IF d.lost = 0 THEN 0 ELSE d.lost * Over((t.q - c.q) * 1000, out))]
Solves(d, f) ==
  LET N == Len(d.rows) + d.lost e == Sides(d, f)
  IN Magnitude(e.one) <= 4 * N + 10 /\ Magnitude(e.two) <= 4 * N + 10
(* Realizations of several demands: rows of coordinates, one set of limits per *)
(* demand. A realization is censored when any demand is beyond its limits.    *)
Beyond(x, lo, hi) == (lo # None /\ x <= lo) \/ (hi # None /\ x >= hi)
Lost(raw, lim) == {r \in DOMAIN raw : \E c \in DOMAIN lim : Beyond(raw[r][c], lim[c].cl, lim[c].cu)}
Kept(raw, lim) == {r \in DOMAIN raw \ Lost(raw, lim) : \A c \in DOMAIN lim : ~Beyond(raw[r][c], lim[c].tl, lim[c].tu)}
RECURSIVE Column(_, _, _, _)
Column(raw, kept, c, r) == IF r = 0 THEN <<>> ELSE Column(raw, kept, c, r - 1) \o (IF r \in kept THEN <<raw[r][c]>> ELSE <<>>)
Problem(raw, lim, c) == LET kept == Kept(raw, lim) IN
  [rows |-> Column(raw, kept, c, Len(raw)), lost |-> Cardinality(Lost(raw, lim)),
   tl |-> lim[c].tl, tu |-> lim[c].tu, cl |-> lim[c].cl, cu |-> lim[c].cu]
(* the place of a realization in the truncated distribution, as the value of a *)
(* standard normal variable (thousandths)                                     *)
RECURSIVE Seek(_, _, _)
Seek(u, lo, hi) == IF hi - lo <= 1 THEN (IF Magnitude(Cum(lo) - u) <= Magnitude(Cum(hi) - u) THEN lo ELSE hi)
                   ELSE LET mid == (lo + hi) \div 2 IN IF Cum(mid) < u THEN Seek(u, mid, hi) ELSE Seek(u, lo, mid)
Place(y, d, f) ==
  IF d.tl = None /\ d.tu = None THEN Std(y, f)
  ELSE LET a == End(d.tl, f, 0) b == End(d.tu, f, 1000000) z == Std(y, f)
           x == Cum(z) - a.c w == b.c - a.c
           u == Over(x * 2000, w) * 500 + Over((x * 2000 - Over(x * 2000, w) * w) * 500, w)
       IN IF w < 1000 THEN 0 ELSE Seek(u, 0 - 5000, 5000)
RECURSIVE Products(_, _, _, _, _)
Products(d, f, e, g, i) == IF i = 0 THEN 0
  ELSE Over(Place(d.rows[i], d, f) * Place(e.rows[i], e, g), 1000) + Products(d, f, e, g, i - 1)
(* correlation in thousandths *)
Rho(d, f, e, g) == Over(Products(d, f, e, g, Len(d.rows)), Len(d.rows))
(* Data that was rearranged, or that is the data mirrored or moved *)
Moved(d, by) == LET mv(y) == IF y = None THEN None ELSE y + by IN
  [rows |-> [i \in DOMAIN d.rows |-> d.rows[i] + by], lost |-> d.lost, tl |-> mv(d.tl), tu |-> mv(d.tu), cl |-> mv(d.cl), cu |-> mv(d.cu)]
Mirrored(d) == LET mi(y) == IF y = None THEN None ELSE 0 - y IN
  [rows |-> [i \in DOMAIN d.rows |-> 0 - d.rows[i]], lost |-> d.lost, tl |-> mi(d.tu), tu |-> mi(d.tl), cl |-> mi(d.cu), cu |-> mi(d.cl)]
Repeated(d) == [d EXCEPT !.rows = @ \o @, !.lost = 2 * @]
=============================================================================
