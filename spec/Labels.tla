------------------------------- MODULE Labels -------------------------------
(* Hierarchical and compact labels (property C29). A part is a sequence of   *)
(* characters without dash, a hierarchical label a sequence of parts, a       *)
(* compact label a sequence of characters.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RECURSIVE Join(_), Split(_)
Join(parts) == IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<"-">> \o Join(Tail(parts))
Split(chars) ==
  IF \E i \in DOMAIN chars : chars[i] = "-"
  THEN LET i == CHOOSE x \in DOMAIN chars : chars[x] = "-" /\ \A y \in 1..(x - 1) : chars[y] # "-"
       IN <<SubSeq(chars, 1, i - 1)>> \o Split(SubSeq(chars, i + 1, Len(chars)))
  ELSE <<chars>>
Pad(parts, n) == [i \in 1..n |-> IF i <= Len(parts) THEN parts[i] ELSE <<>>]
Depth(labels) == LET S == {Len(labels[i]) : i \in DOMAIN labels} IN CHOOSE x \in S : \A y \in S : y <= x
ToCompact(labels) == [i \in DOMAIN labels |-> Join(labels[i])]
ToHierarchy(compact) ==
  LET sp == [i \in DOMAIN compact |-> Split(compact[i])] n == Depth(sp) IN [i \in DOMAIN sp |-> Pad(sp[i], n)]
=============================================================================
