---------------------------- MODULE DamageState ----------------------------
(* Limit states and damage states of one block (property C01).              *)
(*                                                                          *)
(* A limit state is [num, w]: its number and its weights as a sequence of   *)
(* 0/1 (1 = positive weight); one without weights has w = <<1>>. Only the   *)
(* defined limit states are listed, in any order, with distinct numbers.    *)
EXTENDS Integers, Sequences, FiniteSets

LsNums(lss) == {lss[i].num : i \in DOMAIN lss}
LsOf(lss, n) == lss[CHOOSE i \in DOMAIN lss : lss[i].num = n]
Highest(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE StatesIn(_, _)
StatesIn(lss, S) ==
  IF S = {} THEN 0
  ELSE LET n == CHOOSE x \in S : TRUE
       IN Len(LsOf(lss, n).w) + StatesIn(lss, S \ {n})

(* damage states before the first one of limit state n *)
Base(lss, n) == StatesIn(lss, {m \in LsNums(lss) : m < n})
TotalStates(lss) == StatesIn(lss, LsNums(lss))
Owned(lss, n) == {Base(lss, n) + k : k \in {j \in DOMAIN LsOf(lss, n).w : LsOf(lss, n).w[j] = 1}}

(* The damage states a block may be in when exactly the limit states E are exceeded. *)
Allowed(lss, E) == IF E = {} THEN {0} ELSE Owned(lss, Highest(E))

(* exceeded limit states for fixed capacities cap[num], all integers *)
Exceeded(lss, cap(_), d) == {n \in LsNums(lss) : cap(n) < d}
=============================================================================
