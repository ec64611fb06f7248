---------------------------- MODULE DemandJudge ----------------------------
(* The damage state of a "ladder" component (capacities 0.5, 1.5, ...) tells *)
(* which demand it saw. in.groups: [terms, op, loc, dir]; obs.ds: rows.      *)
EXTENDS Demand, Judging

VARIABLES k, g, bad
C == Cases[k]
Steps == C.in.ladder

AllAvailable(inp) ==
  \A i \in DOMAIN inp.groups : LET p == inp.groups[i] IN
    \A t \in DOMAIN p.terms : Available(inp.sample, p.terms[t], p.loc, p.dir, inp.opts)

Seen(inp, p, r) ==
  LET x == [t \in DOMAIN p.terms |-> TermValue(inp.sample, p.terms[t], p.loc, p.dir, inp.opts, r)]
      v == Evaluate(p.op, x)
  IN Cardinality({j \in 1..inp.ladder : 100 * j - 50 < v})

GroupBad(inp, p, rows) ==
  IF Len(rows) # inp.n \/ \E r \in DOMAIN rows : Len(rows[r]) # 1 THEN {"group-shape"}
  ELSE Clause("demand-seen", \A r \in DOMAIN rows : rows[r][1] = Seen(inp, p, r))

JInit == k \in DOMAIN Cases /\ g = 1 /\ bad = {}
Ok == AllAvailable(C.in)
StepGroup == /\ Ok /\ ~Has(C.obs, "exc") /\ g <= Len(C.in.groups)
             /\ bad' = bad \cup GroupBad(C.in, C.in.groups[g], C.obs.ds[g])
             /\ g' = g + 1 /\ k' = k
Finish == /\ g <= Len(C.in.groups) + 1
          /\ IF Has(C.obs, "exc")
             THEN /\ g = 1
                  /\ Report(C.id, bad \cup Clause("unexpected-error", ~Ok))
             ELSE /\ (~Ok \/ g = Len(C.in.groups) + 1)
                  /\ Report(C.id, bad \cup Clause("missing-demand-accepted", Ok))
          /\ g' = Len(C.in.groups) + 2 /\ UNCHANGED <<k, bad>>
JNext == StepGroup \/ Finish
=============================================================================
