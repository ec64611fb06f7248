----------------------------- MODULE SamplingMC -----------------------------
(* A registry: variables are added in any order, drawn once, and transformed *)
(* in the order of registration. Each of the free variables f and g owns a   *)
(* permutation; a is anchored to f, b to a; p and m form a set with g (signs *)
(* +1 and -1); d is discrete and anchored to f; e repeats recorded values.   *)
EXTENDS Sampling
CONSTANTS NMax, D, MaxWeights, RawMax
VARIABLES n, order, u, val, w, raw, pos
vars == <<n, order, u, val, w, raw, pos>>
Names == {"f", "g", "a", "b", "p", "m", "d", "e"}
Free == {"f", "g"}
RECURSIVE Root(_)
Root(v) == CASE v = "a" -> "f" [] v = "b" -> Root("a") [] v = "d" -> "f" [] v \in {"p", "m"} -> "g" [] OTHER -> v
Weights == UNION {{x \in [1..k -> 1..D] : CumTo(x, k) <= D} : k \in 1..MaxWeights}
Init == /\ n \in 1..NMax /\ order = <<>> /\ u = <<>> /\ val = <<>> /\ w \in Weights /\ raw \in UNION {[1..k -> {k, k + 1}] : k \in 1..RawMax}
        /\ pos \in {0, 1, 2}     (* where in its stratum a value lies: start, middle, end *)
Used == {order[i] : i \in DOMAIN order}
(* the registration order matters for nothing below: a few orders suffice *)
Register == /\ u = <<>> /\ order = <<>>
            /\ order' \in {<<"f", "g", "a", "b", "p", "m", "d", "e">>, <<"d", "e", "m", "b", "a", "p", "g", "f">>}
            /\ UNCHANGED <<n, u, val, w, raw, pos>>
Draw == /\ order # <<>> /\ u = <<>>
        /\ \E pf \in Perms(n), pg \in Perms(n) : u' = [v \in Free |-> IF v = "f" THEN pf ELSE pg]
        /\ UNCHANGED <<n, order, val, w, raw, pos>>
Strata(v) == Signed(u[Root(v)], IF v = "m" THEN -1 ELSE 1)
(* point of the domain over 4 n D: k/n, (k + 1/2)/n, or just below (k + 1)/n *)
Point(k) == CASE pos = 0 -> 4 * k * D [] pos = 1 -> 4 * k * D + 2 * D [] pos = 2 -> 4 * (k + 1) * D - 1
Category(k) == CHOOSE c \in 1..Len(w) : Point(k) >= 4 * n * Lower(w, c) /\ Point(k) < 4 * n * Upper(w, D, c)
Transform == /\ u # <<>> /\ Len(val) < Len(order)
             /\ LET v == order[Len(val) + 1] IN
                val' = Append(val, CASE v = "d" -> [r \in 1..n |-> Category(Strata(v)[r])]
                                     [] v = "e" -> [r \in 1..n |-> Cyclic(raw, r)]
                                     [] OTHER -> Strata(v))
             /\ UNCHANGED <<n, order, u, w, raw, pos>>
Next == Register \/ Draw \/ Transform
Spec == Init /\ [][Next]_vars
Done == order # <<>> /\ Len(val) = Len(order)
V(x) == val[CHOOSE i \in DOMAIN order : order[i] = x]
InvStrata == Done => \A x \in Names \ {"d", "e"} : Stratified(V(x))
InvAnchor == Done => V("a") = V("f") /\ V("b") = V("f")
InvSet == Done => V("p") = V("g") /\ V("m") = Mirror(V("g")) /\ Ranks(V("p")) = Ranks(V("g"))
InvCount == Done => \A c \in 1..Len(w) : LET k == Cardinality({r \in 1..n : V("d")[r] = c}) IN
                     /\ CountOk(k, w, D, n, c)
                     (* up to rounding: within one of the exact share at every end of the category *)
                     /\ k * D < (Upper(w, D, c) - Lower(w, c)) * n + 2 * D /\ k * D > (Upper(w, D, c) - Lower(w, c)) * n - 2 * D
InvDiscrete == Done => \A r \in 1..n : V("d")[r] \in InStratum(w, D, n, V("f")[r]) /\ (pos = 1 => V("d")[r] \in AtMid(w, D, n, V("f")[r]))
InvCyclic == Done => \A r \in 1..n : V("e")[r] = raw[((r - 1) % Len(raw)) + 1] /\ (r + Len(raw) <= n => V("e")[r] = V("e")[r + Len(raw)])
=============================================================================
