---------------------------- MODULE LoggerJudge ----------------------------
(* in.loggers: [file, print, ms]; in.files; in.steps: actions; obs.steps[i]:  *)
(* [log: per file the added lines, notes: per file the added texts, screen,   *)
(* warned: sequence of sequences of texts]                                    *)
EXTENDS Logger, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
F == 1..I.files
L0 == [w \in DOMAIN I.loggers |-> Fresh(I.loggers[w])]
RECURSIVE StateAt(_)
StateAt(i) == IF i = 1 THEN L0 ELSE IF I.steps[i - 1].act = "exc" THEN StateAt(i - 1) ELSE After(StateAt(i - 1), I.steps[i - 1])
(* an unhandled exception is written to every log *)
ExcEffect(a) == [Quiet(F) EXCEPT !.log = [f \in F |-> IF \E w \in DOMAIN I.loggers : I.loggers[w].file = f
                    THEN Written(<<Exception, a.lines[1]>>, TRUE, TRUE, (CHOOSE w \in DOMAIN I.loggers : I.loggers[w].file = f /\ TRUE) \in
                           {w \in DOMAIN I.loggers : I.loggers[w].ms}) ELSE <<>>]]
Expected(i) == LET a == I.steps[i] IN IF a.act = "exc" THEN ExcEffect(a) ELSE Effect(F, StateAt(i), a)
Text(s) == [j \in DOMAIN s |-> s[j].text]
BadStep(i) ==
  LET e == Expected(i) o == O.steps[i] IN
  Clause("lost", \A f \in F : Text(o.log[f]) = Text(e.log[f]))
  \cup Clause("stamp", \A f \in F : Text(o.log[f]) = Text(e.log[f]) => o.log[f] = e.log[f])
  \cup Clause("screen", o.screen = e.screen)
  \cup Clause("warned", o.warned = e.warned)
  \cup Clause("warning file", \A f \in F : o.notes[f] = e.notes[f])
Bad == IF Has(O, "exc") THEN {"error"} ELSE UNION {BadStep(i) : i \in DOMAIN I.steps} \cup Clause("start", O.start = 1)
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
