---------------------------- MODULE Residual ----------------------------
(* Residual drift from peak drift and yield drift (all integers in the same  *)
(* small unit): nothing below yield, three tenths of the excess over yield   *)
(* up to four times yield, the drift less three times yield beyond.          *)
EXTENDS Integers, Sequences, FiniteSets
Regime(d, y) == IF d <= y THEN "small" ELSE IF d < 4 * y THEN "medium" ELSE "large"
Median(d, y) == CASE Regime(d, y) = "small" -> 0
                  [] Regime(d, y) = "medium" -> (3 * (d - y)) \div 10
                  [] OTHER -> d - 3 * y
(* a column of the sample is [type, loc, dir]; yields: direction -> yield     *)
Peaks(cols) == {c \in cols : c.type = "PID"}
Residuals(cols, yields) == {[type |-> "RID", loc |-> c.loc, dir |-> c.dir] : c \in {x \in Peaks(cols) : x.dir \in DOMAIN yields}}
Adjusted(cols, yields) == cols \cup Residuals(cols, yields)
=============================================================================
