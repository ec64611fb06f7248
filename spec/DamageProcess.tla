--------------------------- MODULE DamageProcess ---------------------------
(* Prescribed damage processes (property C03).                              *)
(*                                                                          *)
(* State: the damage state of every block column in every realization.      *)
(* A column is [cmp, loc]; blocks and performance groups of a component at  *)
(* one location are separate columns with equal [cmp, loc].                 *)
(* A program is a sequence of rules [num, src, byloc, events], an event is  *)
(* [ds, targets], a target is [cmp, to]; NA = -1 stands for cleared.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NA == -1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* columns the source component owns, in all places or at one location *)
SrcCols(cols, src) == {c \in DOMAIN cols : cols[c].cmp = src}
SrcColsAt(cols, src, l) == {c \in DOMAIN cols : cols[c].cmp = src /\ cols[c].loc = l}

(* Does the event fire in a realization, given the columns looked at? *)
Fires(row, look, dsrc) == look # {} /\ MaxOf({row[c] : c \in look}) = dsrc

Targeted(cols, c, src, tgt) ==
  IF tgt = "ALL" THEN cols[c].cmp # src ELSE cols[c].cmp = tgt

(* One target of one event applied to one realization. *)
ApplyRow(cols, row, src, byloc, dsrc, tgt, to) ==
  [c \in DOMAIN cols |->
     LET look == IF byloc THEN SrcColsAt(cols, src, cols[c].loc) ELSE SrcCols(cols, src)
     IN  IF Targeted(cols, c, src, tgt) /\ Fires(row, look, dsrc) THEN to ELSE row[c]]

ApplySample(cols, ds, src, byloc, dsrc, tgt, to) ==
  [r \in DOMAIN ds |-> ApplyRow(cols, ds[r], src, byloc, dsrc, tgt, to)]

(* Rules in ascending order of their number; the numbers are distinct. *)
RECURSIVE SortRules(_)
SortRules(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x.num <= y.num
       IN <<m>> \o SortRules(S \ {m})

(* The program as a flat sequence of single-target applications. *)
RECURSIVE FlatTargets(_, _, _), FlatEvents(_, _), FlatRules(_)
FlatTargets(rule, ev, ts) ==
  IF ts = <<>> THEN <<>>
  ELSE <<[src |-> rule.src, byloc |-> rule.byloc, ds |-> ev.ds,
          tgt |-> Head(ts).cmp, to |-> Head(ts).to]>> \o FlatTargets(rule, ev, Tail(ts))
FlatEvents(rule, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE FlatTargets(rule, Head(evs), Head(evs).targets) \o FlatEvents(rule, Tail(evs))
FlatRules(rs) ==
  IF rs = <<>> THEN <<>> ELSE FlatEvents(Head(rs), Head(rs).events) \o FlatRules(Tail(rs))

Program(rules) == FlatRules(SortRules({rules[i] : i \in DOMAIN rules}))
=============================================================================
