------------------------------ MODULE Sampling ------------------------------
(* Joint samples of random variables (properties C15, C16).                  *)
(*                                                                           *)
(* The domain of the cumulative probability is cut into n equal intervals    *)
(* (strata) 0..n-1. A free variable owns a permutation of the strata, one    *)
(* stratum per realization. Other variables take theirs from it:             *)
(*   anchored          the strata of the anchor (of its anchor ...)          *)
(*   set, sign +1      the strata of the first variable of the group         *)
(*   set, sign -1      the mirrored strata                                   *)
(* Discrete variables cut the same domain at cumulative weights, given as    *)
(* whole numbers over a common denominator.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Perms(n) == {f \in [1..n -> 0..(n - 1)] : {f[r] : r \in 1..n} = 0..(n - 1)}
Stratified(s) == {s[r] : r \in DOMAIN s} = 0..(Len(s) - 1)
Mirror(s) == [r \in DOMAIN s |-> Len(s) - 1 - s[r]]
Signed(s, sign) == IF sign = 1 THEN s ELSE Mirror(s)
(* rank of realization r of a sequence of distinct numbers *)
Rank(s, r) == Cardinality({q \in DOMAIN s : s[q] < s[r]})
Ranks(s) == [r \in DOMAIN s |-> Rank(s, r)]
(* --- discrete: category c covers [cum[c-1], cum[c]) of D, cum[last] = D --- *)
RECURSIVE CumTo(_, _)
CumTo(w, c) == IF c = 0 THEN 0 ELSE w[c] + CumTo(w, c - 1)
Upper(w, D, c) == IF c = Len(w) THEN D ELSE CumTo(w, c)
Lower(w, c) == CumTo(w, c - 1)
(* strata of which every point, or some point, belongs to the category *)
Whole(w, D, n, c) == {k \in 0..(n - 1) : k * D >= Lower(w, c) * n /\ (k + 1) * D <= Upper(w, D, c) * n}
Part(w, D, n, c) == {k \in 0..(n - 1) : (k + 1) * D > Lower(w, c) * n /\ k * D < Upper(w, D, c) * n}
CountOk(count, w, D, n, c) == count >= Cardinality(Whole(w, D, n, c)) /\ count <= Cardinality(Part(w, D, n, c))
(* the categories the midpoint of stratum k can be in (two at a boundary) *)
AtMid(w, D, n, k) == {c \in 1..Len(w) : (2 * k + 1) * D >= 2 * n * Lower(w, c) /\ (2 * k + 1) * D <= 2 * n * Upper(w, D, c)}
(* the categories possible in stratum k *)
InStratum(w, D, n, k) == {c \in 1..Len(w) : k \in Part(w, D, n, c)}
(* --- recorded values kept in their order --- *)
Cyclic(raw, r) == raw[((r - 1) % Len(raw)) + 1]
=============================================================================
