-------------------------------- MODULE Units --------------------------------
(* Units of measurement (property C13).                                     *)
(*                                                                          *)
(* Numbers of the implementation appear as [s, m, e]: sign, mantissa and     *)
(* decimal exponent; m9 has nine digits and m4 four (0 is [0, 0, 0]).        *)
EXTENDS Integers, Sequences, FiniteSets

Abs1(x) == IF x < 0 THEN -x ELSE x
(* equal up to rounding in the last of nine digits *)
Near9(a, b) == \/ (a.s = b.s /\ a.e = b.e /\ Abs1(a.m9 - b.m9) <= 20)
               \/ (a.s = b.s /\ a.e = b.e + 1 /\ a.m9 <= 100000010 /\ b.m9 >= 999999980)
               \/ (a.s = b.s /\ b.e = a.e + 1 /\ b.m9 <= 100000010 /\ a.m9 >= 999999980)

(* factor of a unit: [f, p] = f * 10^p base units, f of at most five digits; *)
(* products are brought to a common power of ten and compared to 3 digits   *)
Mul(a, u) == [v |-> a.m4 * u.f, e |-> a.e + u.p]
RECURSIVE Norm(_)
Norm(x) == IF x.v = 0 THEN [v |-> 0, e |-> 0]
           ELSE IF x.v < 100000 THEN Norm([v |-> x.v * 10, e |-> x.e - 1])
           ELSE IF x.v >= 1000000 THEN Norm([v |-> x.v \div 10, e |-> x.e + 1])
           ELSE x
Near3(x, y) == LET a == Norm(x) b == Norm(y) IN
  \/ a.v = 0 /\ b.v = 0
  \/ a.e = b.e /\ Abs1(a.v - b.v) <= 1500
  \/ a.e = b.e + 1 /\ a.v <= 100150 /\ b.v >= 998500
  \/ b.e = a.e + 1 /\ b.v <= 100150 /\ a.v >= 998500
SamePhysical(a, ua, b, ub) == a.s = b.s /\ Near3(Mul(a, ua), Mul(b, ub))

(* how parameters of a distribution follow the unit *)
Scaled(family, f, th) ==
  CASE family \in {"normal", "lognormal"} -> <<f * th[1], th[2]>>
    [] family \in {"normal_std", "uniform"} -> <<f * th[1], f * th[2]>>
    [] OTHER -> <<f * th[1]>>
(* value at the z-th standard position, in a whole number model of each family *)
Quantile(family, th, z) ==
  CASE family = "normal" -> th[1] * (1 + th[2] * z)
    [] family = "lognormal" -> th[1] * (2 ^ (th[2] * z))
    [] family = "normal_std" -> th[1] + th[2] * z
    [] family = "uniform" -> th[1] + (th[2] - th[1]) * z
    [] OTHER -> th[1]
=============================================================================
