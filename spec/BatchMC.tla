------------------------------- MODULE BatchMC -------------------------------
(* Splitting the performance groups of a model into batches (property C06). *)
(* A batch takes groups in order as long as their blocks fit, and at least   *)
(* one; a group is evaluated with its batch, from its own data only.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS G, MaxBlocks, MaxSize
VARIABLES order, blocks, size, pos, done, result, split
vars == <<order, blocks, size, pos, done, result, split>>
RECURSIVE Sum(_, _)
Sum(i, j) == IF i > j THEN 0 ELSE blocks[order[i]] + Sum(i + 1, j)
(* last position of the batch that starts at i *)
Last(i) == LET fit == {j \in i..G : Sum(i, j) <= size} IN IF fit = {} THEN i ELSE Max(fit)
(* what the evaluation of a group yields: a function of its own data *)
Value(g) == <<g, blocks[g]>>
Init == /\ order \in {f \in [1..G -> 1..G] : \A i, j \in 1..G : f[i] = f[j] => i = j}
        /\ blocks \in [1..G -> 1..MaxBlocks] /\ size \in 1..MaxSize
        /\ pos = 1 /\ done = {} /\ result = [g \in 1..G |-> <<>>] /\ split = 0
Batch == /\ pos <= G
         /\ LET here == {order[i] : i \in pos..Last(pos)} IN
              /\ done' = done \cup here
              /\ result' = [g \in 1..G |-> IF g \in here THEN Append(result[g], Value(g)) ELSE result[g]]
         /\ pos' = Last(pos) + 1 /\ split' = split + 1 /\ UNCHANGED <<order, blocks, size>>
Spec == Init /\ [][Batch]_vars /\ WF_vars(Batch)
Once == \A g \in 1..G : result[g] = (IF g \in done THEN <<Value(g)>> ELSE <<>>)
Progress == \A i \in 1..G : order[i] \in done <=> i < pos
Finishes == <>(done = 1..G)
Few == pos > G => split <= G
Inv == Once /\ Progress /\ Few
=============================================================================
