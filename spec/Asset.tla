-------------------------------- MODULE Asset --------------------------------
(* Placement of components (property C14).                                  *)
(* A location expression is [t, a, b, parts, ...]:                           *)
(*   one a | range a b | list parts | all | top | roof | bad                 *)
(* A row assigns a component to all pairs of its locations and directions;    *)
(* every pair is a performance group of its own.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SeqRange(a, b) == IF b < a THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
KeyWords == {"all", "top", "roof"}
RECURSIVE Valid(_, _)
(* stories = 0: no number of stories is given *)
Valid(e, stories) ==
  CASE e.t = "one" -> TRUE
    [] e.t = "range" -> e.a <= e.b
    [] e.t = "list" -> Len(e.parts) > 0 /\ \A i \in DOMAIN e.parts : Valid(e.parts[i], stories)
    [] e.t \in KeyWords -> stories > 0
    [] OTHER -> FALSE
RECURSIVE Expand(_, _)
Expand(e, stories) ==
  CASE e.t = "one" -> <<e.a>>
    [] e.t = "range" -> SeqRange(e.a, e.b)
    [] e.t = "list" -> FlattenSeq([i \in DOMAIN e.parts |-> Expand(e.parts[i], stories)])
    [] e.t = "all" -> SeqRange(1, stories)
    [] e.t = "top" -> <<stories>>
    [] e.t = "roof" -> <<stories + 1>>
    [] OTHER -> <<>>
RowValid(row, stories) == Valid(row.loc, stories) /\ Valid(row.dir, 0)
Places(row, stories) ==
  LET ls == Expand(row.loc, stories) ds == Expand(row.dir, 0)
  IN FlattenSeq([i \in DOMAIN ls |-> [j \in DOMAIN ds |-> <<row.cmp, ls[i], ds[j]>>]])
(* all groups of the assignment: sequence of [place, row] *)
Groups(rows, stories) ==
  FlattenSeq([r \in DOMAIN rows |-> LET ps == Places(rows[r], stories) IN [i \in DOMAIN ps |-> [place |-> ps[i], row |-> r]]])
Accepted(rows, stories) == \A r \in DOMAIN rows : RowValid(rows[r], stories)
=============================================================================
