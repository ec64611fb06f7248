------------------------------ MODULE FitJudge ------------------------------
(* in.raw: realizations as coordinates; in.lim: limits of the demands (None   *)
(* where there are none); in.ways: the renderings of the data that were       *)
(* fitted: `at` tells which column of the table is which demand (0: not in    *)
(* this one). obs.fits[w]: err, fit (per demand), rho (thousandths)           *)
EXTENDS Fit, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
D == DOMAIN I.lim
P(c) == Problem(I.raw, I.lim, c)
Censored == Cardinality(Lost(I.raw, I.lim))
Single == Len(I.lim) = 1
(* an integral over three or more dimensions is a random estimate *)
Close(a, b, s) == Magnitude(a - b) <= 3 + s \div 60
First == O.fits[1]
(* with truncation the estimates may not make a correlation matrix: of three demands they are then adjusted *)
Matrix(R) == Len(I.lim) < 3 \/
  LET a == R[1][2] b == R[1][3] c == R[2][3]
  IN Max2(Abs(a), Max2(Abs(b), Abs(c))) < 1000 /\ 1000 + (2 * ((a * b) \div 1000) * c) \div 1000 - (a * a) \div 1000 - (b * b) \div 1000 - (c * c) \div 1000 > 20
BadFit == IF First.err = 1 THEN {"error"}
  ELSE (IF Single \/ Censored = 0 THEN Clause("likelihood", \A c \in D : Solves(P(c), First.fit[c])) ELSE {})
       \cup (IF Censored = 0 /\ Len(I.raw) > 2
             THEN LET R == [c \in D |-> [e \in D |-> IF c = e THEN 1000 ELSE IF c < e THEN Rho(P(c), First.fit[c], P(e), First.fit[e]) ELSE 0]]
                  IN IF ~Matrix(R) THEN {} ELSE
                     Clause("correlation", \A c, e \in D : c < e => Magnitude(First.rho[c][e] - Clip(R[c][e], 1000)) <= 20)
             ELSE {})
       \cup Clause("matrix", \A c, e \in D : First.rho[c][e] = First.rho[e][c] /\ First.rho[c][c] = 1000)
BadWay(w) == LET o == O.fits[w] IN
  IF o.err = 1 THEN Clause("error", First.err = 1) ELSE
  IF First.err = 1 THEN {} ELSE
  Clause("same", \A c \in D : Close(o.fit[c].m, First.fit[c].m, First.fit[c].s) /\ Close(o.fit[c].s, First.fit[c].s, First.fit[c].s))
  \cup Clause("same-correlation", \A c, e \in D : Magnitude(o.rho[c][e] - First.rho[c][e]) <= 20)
Bad == IF Has(O, "exc") THEN {"error"} ELSE BadFit \cup UNION {BadWay(w) : w \in DOMAIN O.fits}
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
