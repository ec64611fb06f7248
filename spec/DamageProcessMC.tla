------------------------- MODULE DamageProcessMC --------------------------
(* Exhaustive small model: three components, two locations, every start     *)
(* vector of damage states 0..2 as one realization, every program of up to  *)
(* MaxRules single-event rules over the event alphabet.                     *)
EXTENDS DamageProcess, Json

CONSTANTS MaxRules, Dump

Cols == <<[cmp |-> "A", loc |-> 1], [cmp |-> "A", loc |-> 2],
          [cmp |-> "B", loc |-> 1], [cmp |-> "C", loc |-> 2]>>
Start == {<<a, b, c, d>> : a \in 0..2, b \in 0..2, c \in 0..1, d \in 0..1}

Events == [src : {"A", "B"}, byloc : BOOLEAN, ds : {1, 2},
           tgt : {"A", "B", "ALL", "X"}, to : {NA, 0, 2}]

VARIABLES prog, pc, ds, last
vars == <<prog, pc, ds, last>>

Known(e) == SrcCols(Cols, e.src) # {} /\ (e.tgt = "ALL" \/ SrcCols(Cols, e.tgt) # {})

Init == /\ prog = <<>> /\ pc = 0 /\ ds = [v \in Start |-> v] /\ last = ds

(* One rule is chosen and executed; skipping is executing it without effect. *)
Run(e) == /\ Len(prog) < MaxRules
          /\ prog' = Append(prog, e) /\ pc' = pc + 1 /\ last' = ds
          /\ ds' = ApplySample(Cols, ds, e.src, e.byloc, e.ds, e.tgt, e.to)
Next == \E e \in Events : Run(e)
Spec == Init /\ [][Next]_vars

Dumped == IF Dump /\ prog # <<>> THEN PrintT("J!" \o ToJson([prog |-> prog])) ELSE TRUE

E == prog[Len(prog)]
(* nothing outside the targets changes *)
Frame == prog = <<>> \/
  \A v \in Start : \A c \in DOMAIN Cols :
    ds[v][c] # last[v][c] => Targeted(Cols, c, E.src, E.tgt) /\ ds[v][c] = E.to
(* an ALL event never changes its source *)
SourceKept == prog = <<>> \/ E.tgt # "ALL" \/
  \A v \in Start : \A c \in SrcCols(Cols, E.src) : ds[v][c] = last[v][c]
(* firing is all or nothing for the targets at one location *)
AllOrNothing == prog = <<>> \/
  \A v \in Start : \A c, d \in DOMAIN Cols :
    (/\ Targeted(Cols, c, E.src, E.tgt) /\ Targeted(Cols, d, E.src, E.tgt)
     /\ (E.byloc => Cols[c].loc = Cols[d].loc)
     /\ ds[v][c] # last[v][c]) => ds[v][d] = E.to
(* unknown components have no effect *)
UnknownSkipped == prog = <<>> \/ Known(E) \/ ds = last
(* a rule bound to locations does nothing where its source is absent *)
LocBound == prog = <<>> \/ ~E.byloc \/
  \A v \in Start : \A c \in DOMAIN Cols :
    SrcColsAt(Cols, E.src, Cols[c].loc) = {} => ds[v][c] = last[v][c]
(* executing the same event twice in a row adds nothing unless it rewrites its own source *)
Idempotent == prog = <<>> \/ E.tgt = E.src \/
  ApplySample(Cols, ds, E.src, E.byloc, E.ds, E.tgt, E.to) = ds
Inv == Frame /\ SourceKept /\ AllOrNothing /\ UnknownSkipped /\ LocBound /\ Idempotent /\ Dumped
=============================================================================
