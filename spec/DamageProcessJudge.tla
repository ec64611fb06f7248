------------------------ MODULE DamageProcessJudge ------------------------
(* Trace specification: the recorded start sample is stepped through the    *)
(* program with the actions of DamageProcess; the recorded final sample     *)
(* must be the one reached.                                                 *)
EXTENDS DamageProcess, Judging

VARIABLES k, pc, ds, done
Flat(c) == Program(c.in.rules)

JInit == /\ k \in DOMAIN Cases /\ pc = 1 /\ done = FALSE
         /\ ds = Cases[k].obs.ds0

Verdict(c) ==
  LET cols == c.in.cols
      ob == c.obs.ds1
      shape == Len(ob) = Len(ds) /\ \A r \in DOMAIN ob : Len(ob[r]) = Len(cols)
      tg == {x \in DOMAIN cols : \E i \in DOMAIN Flat(c) : Targeted(cols, x, Flat(c)[i].src, Flat(c)[i].tgt)}
  IN IF ~shape THEN {"sample-shape"}
     ELSE Clause("non-target-changed",
                 \A r \in DOMAIN ds : \A x \in DOMAIN cols \ tg : ob[r][x] = c.obs.ds0[r][x])
          \cup Clause("final-damage-states", ob = ds)
          \cup Clause("skip-warning", c.obs.warned = c.in.expect_warn)

Step == /\ ~done /\ pc <= Len(Flat(Cases[k]))
        /\ LET e == Flat(Cases[k])[pc]
           IN ds' = ApplySample(Cases[k].in.cols, ds, e.src, e.byloc, e.ds, e.tgt, e.to)
        /\ pc' = pc + 1 /\ UNCHANGED <<k, done>>
Finish == /\ ~done /\ pc > Len(Flat(Cases[k]))
          /\ Report(Cases[k].id, Verdict(Cases[k]))
          /\ done' = TRUE /\ UNCHANGED <<k, pc, ds>>
JNext == Step \/ Finish
=============================================================================
