--------------------------- MODULE WorkflowJudge ---------------------------
(* Trace specification: a recorded history is stepped through Workflow; what *)
(* is present after every step has to be what a fresh assessment gives for   *)
(* its tag. The history ends at the first difference.                        *)
EXTENDS Workflow, Judging

VARIABLES k, i, s, bad, done

Fields == {"dem", "mdl", "cmp", "dmg", "lss"}
TagOf(t, f) == IF f = "cmp" THEN (IF t.cmp = 0 THEN None ELSE <<"cmp", t.cmp>>) ELSE t[f]

Refs(c, f) == c.in.ref[f]
Known(c, f, tag) == \E r \in DOMAIN Refs(c, f) : Refs(c, f)[r][1] = tag
Wanted(c, f, tag) == Refs(c, f)[CHOOSE r \in DOMAIN Refs(c, f) : Refs(c, f)[r][1] = tag][2]

Verdict(c, t, x, ob) ==
  LET n == Step(t, x)
      diff(f) == IF TagOf(n, f) = None THEN ob[f] # "none"
                 ELSE ~Known(c, f, TagOf(n, f)) \/ Wanted(c, f, TagOf(n, f)) # ob[f]
      res == Result(t, x)
  IN IF ob.exc # "" THEN {"error-" \o x.a}
     ELSE Clause("demand", ~diff("dem")) \cup Clause("demand-model", ~diff("mdl"))
          \cup Clause("assets", ~diff("cmp")) \cup Clause("damage", ~diff("dmg")) \cup Clause("losses", ~diff("lss"))
          \cup Clause("returned", res = None \/ (Known(c, "ret", res) /\ Wanted(c, "ret", res) = ob.ret))
          \cup Clause("inputs-changed", ob.changed = <<>>)

JInit == /\ k \in DOMAIN Cases /\ i = 1 /\ s = Empty /\ bad = {} /\ done = FALSE

Go == LET c == Cases[k]  x == c.in.hist[i]
      IN /\ ~done /\ bad = {} /\ i <= Len(c.in.hist)
         /\ bad' = IF ~Enabled(s, x) THEN {"history-not-in-model"}
                   ELSE IF i > Len(c.obs.steps) THEN {"history-cut-short"}
                   ELSE Verdict(c, s, x, c.obs.steps[i])
         /\ s' = Step(s, x) /\ i' = i + 1 /\ UNCHANGED <<k, done>>
Finish == /\ ~done /\ (bad # {} \/ i > Len(Cases[k].in.hist))
          /\ Report(Cases[k].id, bad)
          /\ done' = TRUE /\ UNCHANGED <<k, i, s, bad>>
JNext == Go \/ Finish

\* the judge allows every version
JDemand == {1, 2}
=============================================================================
