----------------------------- MODULE RegionalMC -----------------------------
(* A run: the filtered inventory is sorted by occupancy and cut into chunks,   *)
(* workers take chunks and leave their result files in any order, the files    *)
(* are listed in any order, put together and brought back to the order of the  *)
(* inventory.  Grid values come in files whose columns have their own order.   *)
EXTENDS Regional, TLC, Json
CONSTANTS Buildings, Occs, Sizes, Workers, Trace
IMs == {"A", "B"}
VARIABLES pc, occ, kept, size, order, left, busy, files, damaged, merged, config
vars == <<pc, occ, kept, size, order, left, busy, files, damaged, merged, config>>
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SortSet(S \ {m})
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Init == /\ pc = "start" /\ occ \in [Buildings -> Occs] /\ kept \in SUBSET Buildings \ {{}} /\ size \in Sizes
        /\ damaged \in SUBSET kept /\ config \in {<<"A", "B">>, <<"B", "A">>}
        /\ order = <<>> /\ left = {} /\ busy = {} /\ files = <<>> /\ merged = <<>>
\* any order that puts the occupancies in order will do
Sort == /\ pc = "start" /\ pc' = "work"
        /\ \E p \in Perms(kept) : /\ \A i, j \in DOMAIN p : i < j => occ[p[i]] <= occ[p[j]]
                                  /\ order' = p /\ left' = 1..Chunks(p, size)
        /\ UNCHANGED <<occ, kept, size, busy, files, damaged, merged, config>>
Begin == /\ pc = "work" /\ Cardinality(busy) < Workers /\ \E c \in left : left' = left \ {c} /\ busy' = busy \cup {c}
         /\ UNCHANGED <<pc, occ, kept, size, order, files, damaged, merged, config>>
\* the values of a building: its own occupancy, whether it is damaged, and the measure under each name
Own(b) == [id |-> b, occ |-> occ[b], loss |-> IF b \in damaged THEN occ[b] ELSE 0, im |-> [m \in IMs |-> <<m, b>>]]
\* inside a chunk: values come in the sorted order of the measures, names must be given in that order
Sorted == <<"A", "B">>
Result(c) == LET ch == Chunk(order, size, c)
             IN [i \in DOMAIN ch |-> [id |-> ch[i], occ |-> occ[ch[i]],
                                      \* losses are found by occupancy group, undamaged buildings are added
                                      loss |-> IF ch[i] \in damaged THEN occ[ch[i]] ELSE 0,
                                      im |-> [m \in IMs |-> LET k == CHOOSE k \in 1..2 : Sorted[k] = m IN <<Sorted[k], ch[i]>>]]]
Finish == /\ pc = "work" /\ \E c \in busy : busy' = busy \ {c} /\ files' = Append(files, Result(c))
          /\ UNCHANGED <<pc, occ, kept, size, order, left, damaged, merged, config>>
\* the files are listed in any order
RECURSIVE Flat(_, _)
Flat(p, fs) == IF p = <<>> THEN <<>> ELSE fs[Head(p)] \o Flat(Tail(p), fs)
Merge == /\ pc = "work" /\ left = {} /\ busy = {} /\ pc' = "done"
         /\ \E p \in Perms(DOMAIN files) :
              LET all == Flat(p, files)
              IN merged' = [i \in 1..Cardinality(kept) |-> all[CHOOSE j \in DOMAIN all : all[j].id = SortSet(kept)[i]]]
         /\ UNCHANGED <<occ, kept, size, order, left, busy, files, damaged, config>>
Next == Sort \/ Begin \/ Finish \/ Merge
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Once == pc = "work" /\ left = {} /\ busy = {} =>
          \A b \in kept : Cardinality({<<i, j>> \in (DOMAIN files) \X (1..size) : j \in DOMAIN files[i] /\ files[i][j].id = b}) = 1
Right == pc = "done" => merged = [i \in 1..Cardinality(kept) |-> Own(SortSet(kept)[i])]
Inv == Once /\ Right
Emitting == Trace /\ pc = "start" =>
              PrintT("J!" \o ToJson([occ |-> [i \in 1..Cardinality(Buildings) |-> occ[i]], kept |-> SortSet(kept), size |-> size,
                                     damaged |-> SortSet(damaged), config |-> config]))
=============================================================================
