------------------------------ MODULE LossFnMC ------------------------------
(* Reading a loss function: a demand moves up in steps; the value read is   *)
(* between the ordinates of its segment and meets them at the breakpoints.  *)
EXTENDS LossFn, TLC
CONSTANTS MaxX, MaxSlope
VARIABLES xs, ys, d
Init == /\ \E a, b \in 1..MaxX : xs = <<0, a, a + b>>
        /\ \E y \in 0..2, s, t \in -MaxSlope..MaxSlope :
             LET x1 == xs[2] x2 == xs[3] - xs[2] IN ys = <<y + 10, y + 10 + s * x1, y + 10 + s * x1 + t * x2>>
        /\ d = 0
Step == d < 10 * xs[3] /\ d' = d + 1 /\ UNCHANGED <<xs, ys>>
Spec == Init /\ [][Step]_<<xs, ys, d>>
Bnd(i) == LET lo == IF ys[i] < ys[i + 1] THEN ys[i] ELSE ys[i + 1] hi == IF ys[i] < ys[i + 1] THEN ys[i + 1] ELSE ys[i]
          IN (10 * xs[i] <= d /\ d <= 10 * xs[i + 1]) => (10 * lo <= Read(xs, ys, d) /\ Read(xs, ys, d) <= 10 * hi)
Between == Bnd(1) /\ Bnd(2)
Meets == \A i \in 1..3 : d = 10 * xs[i] => Read(xs, ys, d) = 10 * ys[i]
Inside == InDomain(xs, d)
Inv == Between /\ Meets /\ Inside
=============================================================================
