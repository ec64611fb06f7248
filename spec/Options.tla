------------------------------ MODULE Options ------------------------------
(* Nested settings as path sets.  A tree is [leaves, groups]: leaves, a set   *)
(* of [path, val], the scalars; groups, the set of the paths of the nested     *)
(* dictionaries (the root is not listed).  Well formed: every proper prefix    *)
(* of a path is a group, a group is no leaf, a leaf has one value.             *)
EXTENDS Integers, Sequences, FiniteSets

Root == << >>
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(p, q) == Len(p) < Len(q) /\ IsPrefix(p, q)
Parents(p) == {SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)}
LeafAt(T, p) == \E l \in T.leaves : l.path = p
ValueAt(T, p) == (CHOOSE l \in T.leaves : l.path = p).val
GroupAt(T, p) == p = Root \/ p \in T.groups
Empty == [leaves |-> {}, groups |-> {}]
WellFormed(T) ==
  /\ \A l \in T.leaves : Parents(l.path) \subseteq T.groups /\ l.path \notin T.groups
  /\ \A g \in T.groups : Parents(g) \subseteq T.groups
  /\ \A l, m \in T.leaves : l.path = m.path => l = m

(* what the user gave wins, the defaults fill the rest *)
Conflict(U, D) == (\E l \in U.leaves : l.path \in D.groups) \/ (\E l \in D.leaves : l.path \in U.groups)
Merged(U, D) == [leaves |-> U.leaves \cup {l \in D.leaves : ~LeafAt(U, l.path)}, groups |-> U.groups \cup D.groups]

(* lookups and updates of one entry *)
Sub(T, p) == [leaves |-> {l \in T.leaves : Below(p, l.path)}, groups |-> {g \in T.groups : Below(p, g)}]
Without(T, p) == [leaves |-> {l \in T.leaves : ~IsPrefix(p, l.path) /\ ~Below(l.path, p)},
                  groups |-> {g \in T.groups : ~IsPrefix(p, g)}]
Opened(T, p) == LET w == Without(T, p) IN [w EXCEPT !.groups = @ \cup Parents(p)]
Unset == {"none", "nan", "emptylist"}
Unspecified(T, p) == IF LeafAt(T, p) THEN ValueAt(T, p) \in Unset
                     ELSE IF GroupAt(T, p) THEN Sub(T, p) = Empty ELSE TRUE
Put(T, p, v) == LET w == Opened(T, p) IN
  IF v = "emptygroup" THEN [w EXCEPT !.groups = @ \cup {p}] ELSE [w EXCEPT !.leaves = @ \cup {[path |-> p, val |-> v]}]
(* `only if unspecified` opens the way to the entry in any case *)
PutIf(T, p, v) == IF Unspecified(T, p) THEN Put(T, p, v) ELSE T
(* [kind, val, leaves, groups] *)
Got(T, p) == IF LeafAt(T, p) THEN [kind |-> "leaf", val |-> ValueAt(T, p), sub |-> Empty]
             ELSE IF GroupAt(T, p) THEN [kind |-> "group", val |-> "", sub |-> Sub(T, p)]
             ELSE [kind |-> "default", val |-> "", sub |-> Empty]
=============================================================================
