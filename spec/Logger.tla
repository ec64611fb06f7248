------------------------------- MODULE Logger -------------------------------
(* Loggers, their log and warning files, the screen and the caller.          *)
(* A logger: [file: 0 (none) or a number, print: BOOLEAN, ms: BOOLEAN].       *)
(* A message is a non-empty sequence of lines.  A written line is             *)
(* [kind, text], kind 0 bare, 1 indented, 2 stamped, 3 stamped to the         *)
(* microsecond.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

Kind(i, stamp, blank, ms) ==
  IF stamp /\ i = 1 THEN (IF ms THEN 3 ELSE 2) ELSE IF stamp \/ blank THEN 1 ELSE 0
Written(m, stamp, blank, ms) ==
  [i \in 1..Len(m) |-> [kind |-> Kind(i, stamp, blank, ms), text |-> m[i]]]
DivText == "DIV"
Exception == "Unhandled exception occurred:"

(* the state of one logger *)
Fresh(cfg) == [cfg |-> cfg, queue |-> <<>>, told |-> {}]
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Queued(q, m) == IF InSeq(m, q) THEN q ELSE Append(q, m)
Due(l) == SelectSeq(l.queue, LAMBDA m : m \notin l.told)
Flushed(l) == [l EXCEPT !.queue = <<>>, !.told = @ \cup {l.queue[i] : i \in DOMAIN l.queue}]

(* An action is [act, who, lines, stamp, blank]; its effects:                 *)
(*  log[f], notes[f]: what is added to log file f and its warning file;       *)
(*  screen: what is printed; warned: the warnings the caller receives.        *)
NoLines(F) == [f \in F |-> <<>>]
Quiet(F) == [log |-> NoLines(F), notes |-> NoLines(F), screen |-> <<>>, warned |-> <<>>]
Wrote(F, c, w) == [Quiet(F) EXCEPT !.log = [f \in F |-> IF f = c.file THEN w ELSE <<>>],
                                   !.screen = IF c.print THEN w ELSE <<>>]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Warned(F, c, ms) == [Quiet(F) EXCEPT !.notes = [f \in F |-> IF f = c.file THEN Flat(ms) ELSE <<>>], !.warned = ms]

Effect(F, L, a) ==
  LET l == L[a.who] c == l.cfg IN
  CASE a.act = "msg" -> Wrote(F, c, Written(a.lines, a.stamp, a.blank, c.ms))
    [] a.act = "div" -> Wrote(F, c, Written(<<DivText>>, a.stamp, TRUE, c.ms))
    [] a.act = "queue" -> Quiet(F)
    [] a.act = "flush" -> Warned(F, c, Due(l))
    [] a.act = "warn" -> Warned(F, c, Due([l EXCEPT !.queue = Queued(@, a.lines)]))
After(L, a) ==
  CASE a.act \in {"msg", "div"} -> L
    [] a.act = "queue" -> [L EXCEPT ![a.who].queue = Queued(@, a.lines)]
    [] a.act = "flush" -> [L EXCEPT ![a.who] = Flushed(@)]
    [] a.act = "warn" -> [L EXCEPT ![a.who] = Flushed([@ EXCEPT !.queue = Queued(@, a.lines)])]
=============================================================================
