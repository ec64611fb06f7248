----------------------------- MODULE Precedence -----------------------------
(* Where model parameters come from (property C20).                         *)
(*                                                                          *)
(* A table is a sequence of rows [key, def], a call loads a sequence of      *)
(* tables. The model holds at most one definition per key: the first one it  *)
(* met, as a whole. After every call the keys that are not wanted and those  *)
(* whose definition is flagged incomplete are removed.                       *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Keys(rows) == {rows[i].key : i \in DOMAIN rows}
First(rows, k) == rows[CHOOSE i \in DOMAIN rows : rows[i].key = k /\ \A j \in 1..(i - 1) : rows[j].key # k].def
(* model: function from keys to definitions *)
Merge(model, rows) == [k \in DOMAIN model \cup Keys(rows) |-> IF k \in DOMAIN model THEN model[k] ELSE First(rows, k)]
Keep(model, wanted) == LET ks == {k \in DOMAIN model : k \in wanted /\ ~model[k].incomplete} IN [k \in ks |-> model[k]]
Load(model, tables, wanted) == Keep(Merge(model, Flat(tables)), wanted)
Nothing == [k \in {} |-> {}]
RECURSIVE LoadAll(_, _, _)
LoadAll(model, calls, wanted) == IF calls = <<>> THEN model ELSE LoadAll(Load(model, Head(calls), wanted), Tail(calls), wanted)
Missing(model, wanted) == wanted \ DOMAIN model
(* the keys reported at the end of some call (a warning with the same text is given once) *)
RECURSIVE EverMissing(_, _, _)
EverMissing(model, calls, wanted) ==
  IF calls = <<>> THEN {}
  ELSE LET m == Load(model, Head(calls), wanted) IN Missing(m, wanted) \cup EverMissing(m, Tail(calls), wanted)
=============================================================================
