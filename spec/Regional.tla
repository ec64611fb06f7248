------------------------------ MODULE Regional ------------------------------
(* Regional simulations: filters, sorting into chunks, the nearest grid points *)
(* and their weights, governing damage states and losses.                      *)
EXTENDS Integers, Sequences, FiniteSets


(* filters: parts [kind "id" a | "range" a b | "blank" | "bad"] *)
BadFilter(parts) == \E i \in DOMAIN parts : parts[i].kind = "bad" \/ (parts[i].kind = "range" /\ parts[i].a > parts[i].b)
Listed(parts) == UNION {CASE parts[i].kind = "id" -> {parts[i].a}
                          [] parts[i].kind = "range" -> parts[i].a..parts[i].b
                          [] OTHER -> {} : i \in DOMAIN parts}

(* chunks of a sequence *)
Chunk(s, size, c) == SubSeq(s, (c - 1) * size + 1, IF c * size < Len(s) THEN c * size ELSE Len(s))
Chunks(s, size) == (Len(s) + size - 1) \div size

(* nearest grid points; squared distances are integers *)
Sq(x) == x * x
RECURSIVE Prod(_, _)
Prod(S, D) == IF S = {} THEN 1 ELSE LET i == CHOOSE i \in S : TRUE IN D[i] * Prod(S \ {i}, D)
RECURSIVE Sum(_, _)
Sum(S, F) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN F[i] + Sum(S \ {i}, F)
(* the possible sets of the k nearest (ties) *)
Nearest(D, k) == {S \in SUBSET DOMAIN D : Cardinality(S) = k /\ \A i \in S, j \in DOMAIN D \ S : D[i] <= D[j]}
(* integer weights proportional to 1 / d; at distance zero the others have none *)
Weights(S, d) == IF \E i \in S : d[i] = 0 THEN [i \in S |-> IF d[i] = 0 THEN 1 ELSE 0]
                 ELSE [i \in S |-> Prod(S \ {i}, d)]
(* the weighted mean, in thousandths *)
Mean(S, w, v) == LET t == Sum(S, w) s == Sum(S, [i \in S |-> w[i] * v[i]])
                 IN 1000 * (s \div t) + (1000 * (s % t)) \div t

(* damage: the highest threshold exceeded; thresholds ascend *)
Governing(th, x) == Cardinality({i \in DOMAIN th : th[i] < x})
Clear(th, x, tol) == \A i \in DOMAIN th : x < th[i] - tol \/ x > th[i] + tol
=============================================================================
