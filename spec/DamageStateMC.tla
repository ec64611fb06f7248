--------------------------- MODULE DamageStateMC ---------------------------
(* The evaluation of one block as a machine: limit states are visited in    *)
(* ascending order, each exceeded one overwrites the state with one of its  *)
(* own, chosen when the block was sampled. Checked against the declarative  *)
(* statement of DamageState for every table, capacity order and demand.     *)
EXTENDS DamageState, TLC

CONSTANTS Nums, Caps, Demands

VARIABLES tab, cap, dem, todo, pick, ds, drawn
vars == <<tab, cap, dem, todo, pick, ds, drawn>>

Weights == {<<1>>, <<1, 1>>, <<0, 1>>, <<1, 0, 1>>}
Tables == UNION {[S -> Weights] : S \in SUBSET Nums}
AsSeq(t) == LET RECURSIVE f(_)
                f(S) == IF S = {} THEN <<>>
                        ELSE LET n == Highest(S) IN Append(f(S \ {n}), [num |-> n, w |-> t[n]])
            IN f(DOMAIN t)
L == AsSeq(tab)

Init == /\ tab \in Tables /\ cap \in [DOMAIN tab -> Caps] /\ dem \in Demands
        /\ pick = <<>> /\ todo = DOMAIN tab /\ ds = 0 /\ drawn = FALSE

(* each limit state draws its damage state before anything is compared *)
Draw == /\ ~drawn /\ drawn' = TRUE
        /\ pick' \in [DOMAIN tab -> 1..Cardinality(Nums) * 3]
        /\ \A n \in DOMAIN tab : pick'[n] \in Owned(L, n)
        /\ UNCHANGED <<tab, cap, dem, todo, ds>>
Visit == /\ drawn /\ todo # {}
         /\ LET n == CHOOSE x \in todo : \A y \in todo : x <= y
            IN /\ todo' = todo \ {n}
               /\ ds' = IF cap[n] < dem THEN pick[n] ELSE ds
         /\ UNCHANGED <<tab, cap, dem, pick, drawn>>
Next == Draw \/ Visit
Spec == Init /\ [][Next]_vars

Done == drawn /\ todo = {}
Governed == Done => ds \in Allowed(L, Exceeded(L, LAMBDA n : cap[n], dem))
(* the states of different limit states are disjoint and consecutive *)
Numbered ==
  /\ \A m, n \in DOMAIN tab : m # n => Owned(L, m) \cap Owned(L, n) = {}
  /\ UNION {Owned(L, n) : n \in DOMAIN tab} \subseteq 1..TotalStates(L)
  /\ ({n \in DOMAIN tab : \E k \in DOMAIN tab[n] : tab[n][k] = 0} = {}
        => UNION {Owned(L, n) : n \in DOMAIN tab} = 1..TotalStates(L))
(* a larger demand never gives a lower state than the lowest state of what it exceeds *)
Bounded == Done => (ds = 0 <=> {n \in DOMAIN tab : cap[n] < dem} = {})
Inv == Governed /\ Numbered /\ Bounded
=============================================================================
