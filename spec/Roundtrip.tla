----------------------------- MODULE Roundtrip -----------------------------
(* Samples in memory and in files (property C28).                           *)
(*                                                                          *)
(* A table in memory is a set of columns [lab, unit, v]: the label as the    *)
(* sequence of its parts, the unit the column is reported in, the values in  *)
(* base units, one per realization, NA for a missing one. A file holds       *)
(* compact labels (parts joined by dashes), a row of units and the values in *)
(* those units. F gives the size of every unit in base units.                *)
EXTENDS Integers, Sequences, FiniteSets

NA == -999999
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "-" \o Join(Tail(p))

Down(v, f) == IF v = NA THEN NA ELSE v \div f
Up(v, f) == IF v = NA THEN NA ELSE v * f
ToFile(T, F) == {[head |-> Join(c.lab), unit |-> c.unit, cells |-> [i \in DOMAIN c.v |-> Down(c.v[i], F[c.unit])]] : c \in T}
FromFile(X, F) == {[head |-> c.head, unit |-> c.unit, v |-> [i \in DOMAIN c.cells |-> Up(c.cells[i], F[c.unit])]] : c \in X}
(* what a table says, whatever the depth of its labels *)
Compact(T) == {[head |-> Join(c.lab), unit |-> c.unit, v |-> c.v] : c \in T}
Whole(T, F) == \A c \in T : \A i \in DOMAIN c.v : c.v[i] = NA \/ c.v[i] % F[c.unit] = 0
=============================================================================
